use crate::format_element::{
    BestFittingElement, Condition, Group as GroupTag, GroupMode, LineMode, PrintMode, Tag,
};
use crate::token::assert_no_carriage_return;
use crate::{
    Argument, Arguments, Buffer, BufferExtensions, Format, FormatElement, FormatResult, Formatter,
    VecBuffer,
};
use biome_rowan::{Language, SyntaxNode, SyntaxToken, TextSize};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Line {
    mode: LineMode,
}
pub const fn soft_line_break() -> Line {
    Line { mode: LineMode::Soft }
}
pub const fn hard_line_break() -> Line {
    Line { mode: LineMode::Hard }
}
pub const fn empty_line() -> Line {
    Line { mode: LineMode::Empty }
}
pub const fn soft_line_break_or_space() -> Line {
    Line { mode: LineMode::SoftOrSpace }
}
impl<Context> Format<Context> for Line {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Line(self.mode))
    }
}

#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct StaticText {
    text: &'static str,
}
pub fn text(text: &'static str) -> StaticText {
    assert_no_carriage_return(text);
    StaticText { text }
}
impl<Context> Format<Context> for StaticText {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::StaticText { text: self.text })
    }
}

pub struct DynamicText<'a> {
    text: &'a str,
    position: TextSize,
}
pub fn dynamic_text(text: &str, position: TextSize) -> DynamicText<'_> {
    assert_no_carriage_return(text);
    DynamicText { text, position }
}
impl<Context> Format<Context> for DynamicText<'_> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::DynamicText {
            text: self.text.to_string().into_boxed_str(),
            source_position: self.position,
        })
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Space;
pub const fn space() -> Space {
    Space
}
impl<Context> Format<Context> for Space {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::Space)
    }
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct HardSpace;
pub const fn hard_space() -> HardSpace {
    HardSpace
}
impl<Context> Format<Context> for HardSpace {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::HardSpace)
    }
}
pub fn maybe_space(should_insert: bool) -> Option<Space> {
    if should_insert { Some(Space) } else { None }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct ExpandParent;
pub const fn expand_parent() -> ExpandParent {
    ExpandParent
}
impl<Context> Format<Context> for ExpandParent {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::ExpandParent)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct LineSuffixBoundary;
pub const fn line_suffix_boundary() -> LineSuffixBoundary {
    LineSuffixBoundary
}
impl<Context> Format<Context> for LineSuffixBoundary {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.write_element(FormatElement::LineSuffixBoundary)
    }
}

macro_rules! wrapping {
    ($(#[$doc:meta])* $builder:ident, $type:ident, $start:expr, $end:expr) => {
        $(#[$doc])*
        pub fn $builder<Context>(content: &impl Format<Context>) -> $type<'_, Context> {
            $type { content: Argument::new(content) }
        }
        pub struct $type<'a, Context> {
            content: Argument<'a, Context>,
        }
        impl<Context> Clone for $type<'_, Context> {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl<Context> Copy for $type<'_, Context> {}
        impl<Context> Format<Context> for $type<'_, Context> {
            fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
                f.write_element(FormatElement::Tag($start))?;
                Arguments::from(&self.content).fmt(f)?;
                f.write_element(FormatElement::Tag($end))
            }
        }
    };
}
wrapping!(indent, Indent, Tag::StartIndent, Tag::EndIndent);
wrapping!(line_suffix, LineSuffix, Tag::StartLineSuffix, Tag::EndLineSuffix);
wrapping!(
    if_group_breaks,
    IfGroupBreaks,
    Tag::StartConditionalContent(Condition { mode: PrintMode::Expanded, group_id: None }),
    Tag::EndConditionalContent
);
wrapping!(
    if_group_fits_on_line,
    IfGroupFits,
    Tag::StartConditionalContent(Condition { mode: PrintMode::Flat, group_id: None }),
    Tag::EndConditionalContent
);

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
enum IndentMode {
    Soft,
    Block,
    SoftSpace,
}
pub struct BlockIndent<'a, Context> {
    content: Argument<'a, Context>,
    mode: IndentMode,
}
impl<Context> Clone for BlockIndent<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Context> Copy for BlockIndent<'_, Context> {}
pub fn block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Block }
}
pub fn soft_block_indent<Context>(content: &impl Format<Context>) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::Soft }
}
pub fn soft_space_or_block_indent<Context>(
    content: &impl Format<Context>,
) -> BlockIndent<'_, Context> {
    BlockIndent { content: Argument::new(content), mode: IndentMode::SoftSpace }
}
impl<Context> Format<Context> for BlockIndent<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = f.snapshot();
        let line = match self.mode {
            IndentMode::Soft => soft_line_break(),
            IndentMode::Block => hard_line_break(),
            IndentMode::SoftSpace => soft_line_break_or_space(),
        };
        f.write_element(FormatElement::Tag(Tag::StartIndent))?;
        crate::write!(f, [line])?;
        let is_empty = {
            let mut recording = f.start_recording();
            recording.write_fmt(Arguments::from(&self.content))?;
            recording.stop().is_empty()
        };
        if is_empty {
            f.restore_snapshot(snapshot);
            return Ok(());
        }
        f.write_element(FormatElement::Tag(Tag::EndIndent))?;
        crate::write!(f, [line])
    }
}

pub struct Group<'a, Context> {
    content: Argument<'a, Context>,
    should_expand: bool,
}
impl<Context> Clone for Group<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Context> Copy for Group<'_, Context> {}
pub fn group<Context>(content: &impl Format<Context>) -> Group<'_, Context> {
    Group { content: Argument::new(content), should_expand: false }
}
impl<Context> Group<'_, Context> {
    pub fn should_expand(mut self, should_expand: bool) -> Self {
        self.should_expand = should_expand;
        self
    }
}
impl<Context> Format<Context> for Group<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mode = if self.should_expand { GroupMode::Expand } else { GroupMode::Flat };
        f.write_element(FormatElement::Tag(Tag::StartGroup(GroupTag::new().with_mode(mode))))?;
        Arguments::from(&self.content).fmt(f)?;
        f.write_element(FormatElement::Tag(Tag::EndGroup))
    }
}

#[derive(Copy, Clone)]
pub struct FormatWith<Context, T> {
    formatter: T,
    context: PhantomData<fn(&Context)>,
}
pub const fn format_with<Context, T>(formatter: T) -> FormatWith<Context, T>
where
    T: Fn(&mut Formatter<Context>) -> FormatResult<()>,
{
    FormatWith { formatter, context: PhantomData }
}
impl<Context, T> Format<Context> for FormatWith<Context, T>
where
    T: Fn(&mut Formatter<Context>) -> FormatResult<()>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        (self.formatter)(f)
    }
}

pub struct FormatOnce<T, Context> {
    formatter: Cell<Option<T>>,
    context: PhantomData<fn(&Context)>,
}
pub const fn format_once<T, Context>(formatter: T) -> FormatOnce<T, Context>
where
    T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>,
{
    FormatOnce { formatter: Cell::new(Some(formatter)), context: PhantomData }
}
impl<T, Context> Format<Context> for FormatOnce<T, Context>
where
    T: FnOnce(&mut Formatter<Context>) -> FormatResult<()>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let formatter = self
            .formatter
            .take()
            .expect("Tried to format a `format_once` at least twice. This is not allowed.");
        formatter(f)
    }
}

/// Formats its content once and repeats the elements after that
pub struct Memoized<F, Context> {
    inner: F,
    memory: RefCell<Option<FormatResult<Option<FormatElement>>>>,
    context: PhantomData<fn(&Context)>,
}
impl<F: Format<Context>, Context> Memoized<F, Context> {
    fn get(&self, f: &mut Formatter<Context>) -> FormatResult<Option<FormatElement>> {
        if let Some(known) = &*self.memory.borrow() {
            return known.clone();
        }
        let result = f.intern(&self.inner);
        *self.memory.borrow_mut() = Some(result.clone());
        result
    }
    pub fn inspect(&mut self, f: &mut Formatter<Context>) -> FormatResult<&[FormatElement]> {
        self.get(f)?;
        Ok(match self.memory.get_mut() {
            Some(Ok(Some(FormatElement::Interned(interned)))) => interned,
            Some(Ok(Some(other))) => std::slice::from_ref(other),
            _ => &[],
        })
    }
}
impl<F: Format<Context>, Context> Format<Context> for Memoized<F, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match self.get(f)? {
            Some(element) => f.write_element(element),
            None => Ok(()),
        }
    }
}
pub trait MemoizeFormat<Context> {
    fn memoized(self) -> Memoized<Self, Context>
    where
        Self: Sized + Format<Context>,
    {
        Memoized { inner: self, memory: RefCell::new(None), context: PhantomData }
    }
}
impl<T: Format<Context>, Context> MemoizeFormat<Context> for T {}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    fmt: &'fmt mut Formatter<'buf, Context>,
    with: Option<Separator>,
    has_elements: bool,
}
impl<'fmt, 'buf, Separator: Format<Context>, Context> JoinBuilder<'fmt, 'buf, Separator, Context> {
    pub(crate) fn new(fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: None }
    }
    pub(crate) fn with_separator(fmt: &'fmt mut Formatter<'buf, Context>, with: Separator) -> Self {
        Self { result: Ok(()), fmt, has_elements: false, with: Some(with) }
    }
    pub fn entry(&mut self, entry: &dyn Format<Context>) -> &mut Self {
        self.result = self.result.and_then(|_| {
            if let Some(with) = &self.with {
                if self.has_elements {
                    with.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            entry.fmt(self.fmt)
        });
        self
    }
    pub fn entries<F: Format<Context>, I: IntoIterator<Item = F>>(&mut self, entries: I) -> &mut Self {
        for entry in entries {
            self.entry(&entry);
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

#[must_use = "must eventually call `finish()` on Format builders"]
pub struct JoinNodesBuilder<'fmt, 'buf, Separator, Context> {
    result: FormatResult<()>,
    separator: Separator,
    fmt: &'fmt mut Formatter<'buf, Context>,
    has_elements: bool,
}
impl<'fmt, 'buf, Separator: Format<Context>, Context>
    JoinNodesBuilder<'fmt, 'buf, Separator, Context>
{
    pub(crate) fn new(separator: Separator, fmt: &'fmt mut Formatter<'buf, Context>) -> Self {
        Self { result: Ok(()), separator, fmt, has_elements: false }
    }
    pub fn entry<L: Language>(&mut self, node: &SyntaxNode<L>, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            if self.has_elements {
                if get_lines_before(node) > 1 {
                    crate::write!(self.fmt, [empty_line()])?;
                } else {
                    self.separator.fmt(self.fmt)?;
                }
            }
            self.has_elements = true;
            content.fmt(self.fmt)
        });
    }
    pub fn entry_no_separator(&mut self, content: &dyn Format<Context>) {
        self.result = self.result.and_then(|_| {
            self.has_elements = true;
            content.fmt(self.fmt)
        });
    }
    pub fn entries<L, F, I>(&mut self, entries: I) -> &mut Self
    where
        L: Language,
        F: Format<Context>,
        I: IntoIterator<Item = (SyntaxNode<L>, F)>,
    {
        for (node, content) in entries {
            self.entry(&node, &content)
        }
        self
    }
    pub fn finish(&mut self) -> FormatResult<()> {
        self.result
    }
}

/// The number of newlines before the node's first token (or its first comment)
pub fn get_lines_before<L: Language>(node: &SyntaxNode<L>) -> usize {
    node.first_token().map_or(0, |token| get_lines_before_token(&token))
}
pub fn get_lines_before_token<L: Language>(token: &SyntaxToken<L>) -> usize {
    token
        .leading_trivia()
        .pieces()
        .take_while(|piece| !(piece.is_comments() || piece.is_skipped()))
        .filter(|piece| piece.is_newline())
        .count()
}

pub struct BestFitting<'a, Context> {
    variants: Arguments<'a, Context>,
}
impl<'a, Context> BestFitting<'a, Context> {
    pub fn from_arguments(variants: Arguments<'a, Context>) -> Self {
        assert!(variants.0.len() >= 2, "best fitting needs at least two variants");
        Self { variants }
    }
}
impl<Context> Format<Context> for BestFitting<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let mut variants = Vec::new();
        for variant in self.variants.0 {
            let mut buffer = VecBuffer::new(f.state_mut());
            buffer.write_element(FormatElement::Tag(Tag::StartEntry))?;
            buffer.write_fmt(Arguments::from(variant))?;
            buffer.write_element(FormatElement::Tag(Tag::EndEntry))?;
            variants.push(buffer.into_vec().into_boxed_slice());
        }
        let element = unsafe { BestFittingElement::from_vec_unchecked(variants) };
        f.write_element(FormatElement::BestFitting(element))
    }
}
