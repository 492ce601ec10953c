use crate::format_element::{Interned, LineMode, PrintMode, Tag};
use crate::{Arguments, Format, FormatElement, FormatResult, FormatState, Formatter};
use std::collections::HashMap;
use std::ops::Deref;

#[derive(Debug, Clone, Copy)]
pub struct BufferSnapshot(usize);

pub trait Buffer {
    type Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()>;
    fn elements(&self) -> &[FormatElement];
    fn write_fmt(&mut self, arguments: Arguments<'_, Self::Context>) -> FormatResult<()>;
    fn state(&self) -> &FormatState<Self::Context>;
    fn state_mut(&mut self) -> &mut FormatState<Self::Context>;
    fn snapshot(&self) -> BufferSnapshot;
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot);
}

impl<W: Buffer<Context = Context> + ?Sized, Context> Buffer for &mut W {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        (**self).write_element(element)
    }
    fn elements(&self) -> &[FormatElement] {
        (**self).elements()
    }
    fn write_fmt(&mut self, arguments: Arguments<'_, Context>) -> FormatResult<()> {
        (**self).write_fmt(arguments)
    }
    fn state(&self) -> &FormatState<Context> {
        (**self).state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        (**self).state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        (**self).snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        (**self).restore_snapshot(snapshot)
    }
}

pub struct VecBuffer<'a, Context> {
    state: &'a mut FormatState<Context>,
    elements: Vec<FormatElement>,
}
impl<'a, Context> VecBuffer<'a, Context> {
    pub fn new(state: &'a mut FormatState<Context>) -> Self {
        Self { state, elements: Vec::new() }
    }
    pub fn into_vec(self) -> Vec<FormatElement> {
        self.elements
    }
}
impl<Context> Buffer for VecBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.elements.push(element);
        Ok(())
    }
    fn elements(&self) -> &[FormatElement] {
        &self.elements
    }
    fn write_fmt(&mut self, arguments: Arguments<'_, Context>) -> FormatResult<()> {
        arguments.fmt(&mut Formatter::new(self))
    }
    fn state(&self) -> &FormatState<Context> {
        self.state
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.state
    }
    fn snapshot(&self) -> BufferSnapshot {
        BufferSnapshot(self.elements.len())
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        assert!(self.elements.len() >= snapshot.0, "snapshot of another or a shorter buffer");
        self.elements.truncate(snapshot.0);
    }
}

/// Writes every element to the buffer below it without the soft line breaks
pub struct RemoveSoftLinesBuffer<'a, Context> {
    inner: &'a mut dyn Buffer<Context = Context>,
    interned: HashMap<Interned, Interned>,
    /// How deep within conditional content that only prints in expanded mode
    skipping: usize,
}
impl<'a, Context> RemoveSoftLinesBuffer<'a, Context> {
    pub fn new(inner: &'a mut dyn Buffer<Context = Context>) -> Self {
        Self { inner, interned: HashMap::new(), skipping: 0 }
    }
}
fn clean(
    element: FormatElement,
    skipping: &mut usize,
    interned: &mut HashMap<Interned, Interned>,
) -> Option<FormatElement> {
    match &element {
        FormatElement::Tag(Tag::StartConditionalContent(condition)) => {
            if *skipping > 0 || condition.mode == PrintMode::Expanded {
                *skipping += 1;
            }
            // Content that only prints flat always prints now: its tags go
            return None;
        }
        FormatElement::Tag(Tag::EndConditionalContent) => {
            *skipping = skipping.saturating_sub(1);
            return None;
        }
        _ if *skipping > 0 => return None,
        _ => {}
    }
    match element {
        FormatElement::Line(LineMode::Soft) => None,
        FormatElement::Line(LineMode::SoftOrSpace) => Some(FormatElement::Space),
        FormatElement::Interned(content) => {
            if let Some(done) = interned.get(&content) {
                return Some(FormatElement::Interned(done.clone()));
            }
            let mut inner_skipping = 0;
            let elements = content
                .iter()
                .cloned()
                .filter_map(|element| clean(element, &mut inner_skipping, interned))
                .collect();
            let done = Interned::new(elements);
            interned.insert(content, done.clone());
            Some(FormatElement::Interned(done))
        }
        FormatElement::BestFitting(best) => {
            let elements = best.most_flat();
            // Without the entry tags
            let elements = elements[1..elements.len() - 1].to_vec();
            let mut inner_skipping = 0;
            let elements = elements
                .into_iter()
                .filter_map(|element| clean(element, &mut inner_skipping, interned))
                .collect();
            Some(FormatElement::Interned(Interned::new(elements)))
        }
        element => Some(element),
    }
}
impl<Context> Buffer for RemoveSoftLinesBuffer<'_, Context> {
    type Context = Context;
    fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        match clean(element, &mut self.skipping, &mut self.interned) {
            Some(element) => self.inner.write_element(element),
            None => Ok(()),
        }
    }
    fn elements(&self) -> &[FormatElement] {
        self.inner.elements()
    }
    fn write_fmt(&mut self, arguments: Arguments<'_, Context>) -> FormatResult<()> {
        arguments.fmt(&mut Formatter::new(self))
    }
    fn state(&self) -> &FormatState<Context> {
        self.inner.state()
    }
    fn state_mut(&mut self) -> &mut FormatState<Context> {
        self.inner.state_mut()
    }
    fn snapshot(&self) -> BufferSnapshot {
        self.inner.snapshot()
    }
    fn restore_snapshot(&mut self, snapshot: BufferSnapshot) {
        self.inner.restore_snapshot(snapshot)
    }
}

pub struct Recording<'buf, B> {
    start: usize,
    buffer: &'buf mut B,
}
impl<'buf, B: Buffer> Recording<'buf, B> {
    pub fn write_fmt(&mut self, arguments: Arguments<'_, B::Context>) -> FormatResult<()> {
        self.buffer.write_fmt(arguments)
    }
    pub fn write_element(&mut self, element: FormatElement) -> FormatResult<()> {
        self.buffer.write_element(element)
    }
    pub fn stop(self) -> Recorded<'buf> {
        let buffer: &'buf B = self.buffer;
        let elements = buffer.elements();
        Recorded(if self.start > elements.len() { &[] } else { &elements[self.start..] })
    }
}
pub struct Recorded<'a>(&'a [FormatElement]);
impl Deref for Recorded<'_> {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        self.0
    }
}

pub trait BufferExtensions: Buffer + Sized {
    fn start_recording(&mut self) -> Recording<'_, Self> {
        Recording { start: self.elements().len(), buffer: self }
    }
    fn write_elements<I: IntoIterator<Item = FormatElement>>(
        &mut self,
        elements: I,
    ) -> FormatResult<()> {
        for element in elements {
            self.write_element(element)?;
        }
        Ok(())
    }
}
impl<T: Buffer> BufferExtensions for T {}

