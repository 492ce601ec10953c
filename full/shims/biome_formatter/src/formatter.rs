use crate::buffer::BufferSnapshot;
use crate::builders::*;
use crate::prelude::Line;
use crate::{
    Arguments, Buffer, Comments, CstFormatContext, Format, FormatContext, FormatElement,
    FormatResult, VecBuffer,
};
use biome_rowan::{Language, SyntaxToken};

/// State shared by every buffer of a formatting pass
#[derive(Debug)]
pub struct FormatState<Context> {
    context: Context,
    token_tracking_disabled: bool,
}
impl<Context> FormatState<Context> {
    pub fn new(context: Context) -> Self {
        Self { context, token_tracking_disabled: false }
    }
    pub fn into_context(self) -> Context {
        self.context
    }
    pub fn context(&self) -> &Context {
        &self.context
    }
    pub fn context_mut(&mut self) -> &mut Context {
        &mut self.context
    }
    pub fn track_token<L: Language>(&mut self, _token: &SyntaxToken<L>) {}
    pub fn set_token_tracking_disabled(&mut self, disabled: bool) {
        self.token_tracking_disabled = disabled;
    }
    pub fn is_token_tracking_disabled(&self) -> bool {
        self.token_tracking_disabled
    }
}

pub struct FormatterSnapshot(BufferSnapshot);

pub struct Formatter<'buf, Context> {
    pub(crate) buffer: &'buf mut dyn Buffer<Context = Context>,
}

impl<'buf, Context> Formatter<'buf, Context> {
    pub fn new(buffer: &'buf mut (dyn Buffer<Context = Context> + 'buf)) -> Self {
        Self { buffer }
    }
    pub fn context(&self) -> &Context {
        self.state().context()
    }
    pub fn options(&self) -> &Context::Options
    where
        Context: FormatContext,
    {
        self.context().options()
    }
    pub fn comments(&self) -> &Comments<Context::Language>
    where
        Context: CstFormatContext,
    {
        self.context().comments()
    }
    pub fn join<'a>(&'a mut self) -> JoinBuilder<'a, 'buf, (), Context> {
        JoinBuilder::new(self)
    }
    pub fn join_with<'a, S: Format<Context>>(
        &'a mut self,
        joiner: S,
    ) -> JoinBuilder<'a, 'buf, S, Context> {
        JoinBuilder::with_separator(self, joiner)
    }
    pub fn join_nodes_with_soft_line<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, Context> {
        JoinNodesBuilder::new(soft_line_break_or_space(), self)
    }
    pub fn join_nodes_with_hardline<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Line, Context> {
        JoinNodesBuilder::new(hard_line_break(), self)
    }
    pub fn join_nodes_with_space<'a>(&'a mut self) -> JoinNodesBuilder<'a, 'buf, Space, Context> {
        JoinNodesBuilder::new(space(), self)
    }
    /// Formats `content` on the side, into one element
    pub fn intern(&mut self, content: &dyn Format<Context>) -> FormatResult<Option<FormatElement>> {
        let mut buffer = VecBuffer::new(self.state_mut());
        buffer.write_fmt(crate::format_args![content])?;
        let mut elements = buffer.into_vec();
        Ok(match elements.len() {
            0 => None,
            1 => elements.pop(),
            _ => Some(FormatElement::Interned(crate::format_element::Interned::new(elements))),
        })
    }
    pub fn state_snapshot(&self) -> FormatterSnapshot {
        FormatterSnapshot(self.buffer.snapshot())
    }
    pub fn restore_state_snapshot(&mut self, snapshot: FormatterSnapshot) {
        self.buffer.restore_snapshot(snapshot.0);
    }
}

impl<Context> Buffer for Formatter<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.buffer.write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        self.buffer.elements()
    }
    fn write_fmt(&mut self, arguments: Arguments<'_, Context>) -> FormatResult<()> {
        arguments.fmt(self)
    }
    fn state(&self) -> &FormatState<Context> {
        self.buffer.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.buffer.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.buffer.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.buffer.restore_snapshot(snapshot)
    }
}
