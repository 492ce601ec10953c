use super::{GroupModeCell, PrintMode};
use biome_rowan::TextSize;
use std::cell::Cell;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct GroupId(pub u32);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tag {
    StartIndent,
    EndIndent,
    StartAlign(u8),
    EndAlign,
    StartGroup(Group),
    EndGroup,
    StartConditionalContent(Condition),
    EndConditionalContent,
    StartLineSuffix,
    EndLineSuffix,
    StartVerbatim(VerbatimKind),
    EndVerbatim,
    StartEntry,
    EndEntry,
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum TagKind {
    Indent,
    Align,
    Group,
    ConditionalContent,
    LineSuffix,
    Verbatim,
    Entry,
}
impl Tag {
    pub const fn kind(&self) -> TagKind {
        use Tag::*;
        match self {
            StartIndent | EndIndent => TagKind::Indent,
            StartAlign(_) | EndAlign => TagKind::Align,
            StartGroup(_) | EndGroup => TagKind::Group,
            StartConditionalContent(_) | EndConditionalContent => TagKind::ConditionalContent,
            StartLineSuffix | EndLineSuffix => TagKind::LineSuffix,
            StartVerbatim(_) | EndVerbatim => TagKind::Verbatim,
            StartEntry | EndEntry => TagKind::Entry,
        }
    }
    pub const fn is_start(&self) -> bool {
        use Tag::*;
        matches!(
            self,
            StartIndent
                | StartAlign(_)
                | StartGroup(_)
                | StartConditionalContent(_)
                | StartLineSuffix
                | StartVerbatim(_)
                | StartEntry
        )
    }
}

#[derive(Debug, Copy, Default, Clone, Eq, PartialEq)]
pub enum GroupMode {
    #[default]
    Flat,
    Expand,
    Propagated,
}
impl GroupMode {
    pub const fn is_flat(&self) -> bool {
        matches!(self, GroupMode::Flat)
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Group {
    pub(crate) id: Option<GroupId>,
    mode: GroupModeCell,
}
impl Group {
    pub fn new() -> Self {
        Self { id: None, mode: Cell::new(GroupMode::Flat) }
    }
    pub fn with_mode(mut self, mode: GroupMode) -> Self {
        self.mode = Cell::new(mode);
        self
    }
    pub fn mode(&self) -> GroupMode {
        self.mode.get()
    }
    pub fn propagate_expand(&self) {
        if self.mode.get() == GroupMode::Flat {
            self.mode.set(GroupMode::Propagated)
        }
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Condition {
    pub(crate) mode: PrintMode,
    pub(crate) group_id: Option<GroupId>,
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum VerbatimKind {
    Bogus,
    Suppressed,
    Verbatim { length: TextSize },
}
