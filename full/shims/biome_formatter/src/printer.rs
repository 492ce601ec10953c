//! Prints a document: groups that fit the line print flat, others expanded.

use crate::format_element::{
    BestFittingElement, FormatElement, GroupMode, LineMode, PrintMode, Tag, TagKind, VerbatimKind,
};
use crate::{
    FormatOptions, IndentStyle, IndentWidth, InvalidDocumentError, LineEnding, LineWidth,
    PrintError, PrintResult, Printed,
};
use biome_rowan::{TextRange, TextSize};
use std::collections::HashMap;
use unicode_width::UnicodeWidthChar;

#[derive(Debug, Clone, Copy, Eq, PartialEq, Default)]
pub struct PrinterOptions {
    pub indent_width: IndentWidth,
    pub print_width: LineWidth,
    pub line_ending: LineEnding,
    pub indent_style: IndentStyle,
}
impl<'a, O: FormatOptions> From<&'a O> for PrinterOptions {
    fn from(options: &'a O) -> Self {
        Self {
            indent_width: options.indent_width(),
            print_width: options.line_width(),
            line_ending: options.line_ending(),
            indent_style: options.indent_style(),
        }
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
struct Indention {
    level: u16,
    align: u8,
}
impl Indention {
    fn increment_level(self, style: IndentStyle) -> Self {
        match style {
            _ if self.align == 0 => Self { level: self.level + 1, align: 0 },
            IndentStyle::Tab => Self { level: self.level + 2, align: 0 },
            IndentStyle::Space => Self { level: self.level + 1, align: self.align },
        }
    }
    fn is_empty(&self) -> bool {
        *self == Self::default()
    }
}

#[derive(Debug, Clone, Copy)]
struct Args {
    indention: Indention,
    mode: PrintMode,
}
impl Args {
    fn with_mode(mut self, mode: PrintMode) -> Self {
        self.mode = mode;
        self
    }
}

fn invalid<T>(message: &'static str) -> PrintResult<T> {
    Err(PrintError::InvalidDocument(InvalidDocumentError(message)))
}

/// The open tags with what they were opened with
#[derive(Debug, Clone)]
struct CallStack(Vec<(Option<TagKind>, Args)>);
impl CallStack {
    fn top(&self) -> Args {
        self.0.last().unwrap().1
    }
    fn push(&mut self, kind: TagKind, args: Args) {
        self.0.push((Some(kind), args));
    }
    fn pop(&mut self, kind: TagKind) -> PrintResult<()> {
        match self.0.last() {
            Some((Some(top), _)) if *top == kind => {
                self.0.pop();
                Ok(())
            }
            _ => invalid("an end tag that does not match the last start tag"),
        }
    }
}

/// What is still to print: slices, the last one first, each with the index of its next element
#[derive(Debug, Clone, Default)]
struct Queue<'a>(Vec<&'a [FormatElement]>);
impl<'a> Queue<'a> {
    fn pop(&mut self) -> Option<&'a FormatElement> {
        while let Some(slice) = self.0.last_mut() {
            if let Some((first, rest)) = slice.split_first() {
                *slice = rest;
                return Some(first);
            }
            self.0.pop();
        }
        None
    }
    fn extend(&mut self, elements: &'a [FormatElement]) {
        if !elements.is_empty() {
            self.0.push(elements);
        }
    }
    fn push(&mut self, element: &'a FormatElement) {
        self.0.push(std::slice::from_ref(element));
    }
    /// The elements up to the end tag of this kind, which goes too
    fn content(&mut self, kind: TagKind) -> PrintResult<Vec<&'a FormatElement>> {
        let mut depth = 1;
        let mut elements = vec![];
        loop {
            match self.pop() {
                None => return invalid("a start tag without an end tag"),
                Some(FormatElement::Interned(interned)) => self.extend(interned),
                Some(element) => {
                    if let FormatElement::Tag(tag) = element {
                        if tag.kind() == kind {
                            if tag.is_start() {
                                depth += 1;
                            } else {
                                depth -= 1;
                                if depth == 0 {
                                    return Ok(elements);
                                }
                            }
                        }
                    }
                    elements.push(element);
                }
            }
        }
    }
}

enum LineSuffixEntry<'a> {
    Suffix(&'a FormatElement),
    Args(Args),
}

struct State<'a> {
    buffer: String,
    pending_indent: Indention,
    pending_space: bool,
    measured_group_fits: bool,
    line_width: usize,
    has_empty_line: bool,
    line_suffixes: Vec<LineSuffixEntry<'a>>,
    verbatim: Vec<TextRange>,
    group_modes: HashMap<u32, PrintMode>,
}

enum Fits {
    Yes,
    No,
    Maybe,
}
struct FitsState {
    pending_indent: Indention,
    pending_space: bool,
    has_line_suffix: bool,
    line_width: usize,
}


pub struct Printer<'a> {
    options: PrinterOptions,
    state: State<'a>,
    /// Marks, in the queue, the end of a line suffix that is being printed
    end_suffix: &'a FormatElement,
}

thread_local! {
    static END_SUFFIX: &'static FormatElement =
        Box::leak(Box::new(FormatElement::Tag(Tag::EndLineSuffix)));
}

impl<'a> Printer<'a> {
    pub fn new(options: PrinterOptions) -> Self {
        Self {
            options,
            state: State {
                buffer: String::new(),
                pending_indent: Indention::default(),
                pending_space: false,
                measured_group_fits: false,
                line_width: 0,
                has_empty_line: false,
                line_suffixes: vec![],
                verbatim: vec![],
                group_modes: HashMap::new(),
            },
            end_suffix: END_SUFFIX.with(|element| *element),
        }
    }

    pub fn print(self, document: &'a [FormatElement]) -> PrintResult<Printed> {
        self.print_with_indent(document, 0)
    }

    pub fn print_with_indent(
        mut self,
        document: &'a [FormatElement],
        indent: u16,
    ) -> PrintResult<Printed> {
        let args =
            Args { indention: Indention { level: indent, align: 0 }, mode: PrintMode::Expanded };
        let mut stack = CallStack(vec![(None, args)]);
        let mut queue = Queue::default();
        queue.extend(document);
        loop {
            if let Some(element) = queue.pop() {
                self.print_element(&mut stack, &mut queue, element)?;
            } else if !self.flush_line_suffixes(&mut queue, &mut stack, None) {
                break;
            }
        }
        if stack.0.len() != 1 {
            return invalid("a start tag without an end tag");
        }
        Ok(Printed::new(self.state.buffer, None, self.state.verbatim))
    }

    fn print_element(
        &mut self,
        stack: &mut CallStack,
        queue: &mut Queue<'a>,
        element: &'a FormatElement,
    ) -> PrintResult<()> {
        let args = stack.top();
        match element {
            FormatElement::Space => {
                if self.state.line_width > 0 {
                    self.state.pending_space = true;
                }
            }
            FormatElement::HardSpace => self.state.pending_space = true,
            FormatElement::StaticText { text } => self.print_text(text),
            FormatElement::DynamicText { text, .. } => self.print_text(text),
            FormatElement::LocatedTokenText { slice, .. } => self.print_text(slice.text()),
            FormatElement::Line(mode) => {
                if args.mode.is_flat() && matches!(mode, LineMode::Soft | LineMode::SoftOrSpace) {
                    if *mode == LineMode::SoftOrSpace && self.state.line_width > 0 {
                        self.state.pending_space = true;
                    }
                } else if !self.state.line_suffixes.is_empty() {
                    self.flush_line_suffixes(queue, stack, Some(element));
                } else {
                    // A line that is empty already needs no newline to end it
                    if self.state.line_width > 0 {
                        self.print_str("\n");
                    }
                    if *mode == LineMode::Empty && !self.state.has_empty_line {
                        self.print_str("\n");
                        self.state.has_empty_line = true;
                    }
                    self.state.pending_space = false;
                    self.state.pending_indent = args.indention;
                    self.state.measured_group_fits = false;
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::LineSuffixBoundary => {
                static HARD: FormatElementSync =
                    FormatElementSync(FormatElement::Line(LineMode::Hard));
                self.flush_line_suffixes(queue, stack, Some(&HARD.0));
            }
            FormatElement::BestFitting(best) => self.print_best_fitting(best, queue, stack)?,
            FormatElement::Interned(content) => queue.extend(content),
            FormatElement::Tag(Tag::StartGroup(group)) => {
                let mode = match group.mode() {
                    GroupMode::Expand | GroupMode::Propagated => PrintMode::Expanded,
                    GroupMode::Flat => {
                        if args.mode.is_flat() && self.state.measured_group_fits {
                            // A group around this one was found to fit
                            PrintMode::Flat
                        } else {
                            self.state.measured_group_fits = true;
                            stack.push(TagKind::Group, args.with_mode(PrintMode::Flat));
                            let fits = self.fits(queue, stack)?;
                            stack.pop(TagKind::Group)?;
                            if fits { PrintMode::Flat } else { PrintMode::Expanded }
                        }
                    }
                };
                stack.push(TagKind::Group, args.with_mode(mode));
                if let Some(id) = group.id {
                    self.state.group_modes.insert(id.0, mode);
                }
            }
            FormatElement::Tag(Tag::StartIndent) => {
                let indention = args.indention.increment_level(self.options.indent_style);
                stack.push(TagKind::Indent, Args { indention, ..args });
            }
            FormatElement::Tag(Tag::StartAlign(count)) => {
                let mut indention = args.indention;
                indention.align = indention.align.saturating_add(*count);
                stack.push(TagKind::Align, Args { indention, ..args });
            }
            FormatElement::Tag(Tag::StartConditionalContent(condition)) => {
                let mode = match condition.group_id {
                    None => args.mode,
                    Some(id) => self.state.group_modes[&id.0],
                };
                if condition.mode == mode {
                    stack.push(TagKind::ConditionalContent, args);
                } else {
                    queue.content(TagKind::ConditionalContent)?;
                }
            }
            FormatElement::Tag(Tag::StartLineSuffix) => {
                for element in queue.content(TagKind::LineSuffix)? {
                    self.state.line_suffixes.push(LineSuffixEntry::Suffix(element));
                }
                self.state.line_suffixes.push(LineSuffixEntry::Args(args));
            }
            FormatElement::Tag(Tag::StartVerbatim(kind)) => {
                if let VerbatimKind::Verbatim { length } = kind {
                    let start = TextSize::try_from(self.state.buffer.len()).unwrap();
                    self.state.verbatim.push(TextRange::at(start, *length));
                }
                stack.push(TagKind::Verbatim, args);
            }
            FormatElement::Tag(Tag::StartEntry) => stack.push(TagKind::Entry, args),
            FormatElement::Tag(tag) => stack.pop(tag.kind())?,
        }
        Ok(())
    }

    fn print_text(&mut self, text: &str) {
        if !self.state.pending_indent.is_empty() {
            let indent = std::mem::take(&mut self.state.pending_indent);
            let (character, repeat) = match self.options.indent_style {
                IndentStyle::Tab => ('\t', 1),
                IndentStyle::Space => (' ', self.options.indent_width.value() as usize),
            };
            for _ in 0..indent.level as usize * repeat {
                self.print_char(character);
            }
            for _ in 0..indent.align {
                self.print_char(' ');
            }
        }
        if self.state.pending_space {
            self.print_char(' ');
            self.state.pending_space = false;
        }
        self.print_str(text);
    }

    fn print_str(&mut self, text: &str) {
        for character in text.chars() {
            self.print_char(character);
            self.state.has_empty_line = false;
        }
    }

    fn print_char(&mut self, character: char) {
        if character == '\n' {
            self.state.buffer.push_str(self.options.line_ending.as_str());
            self.state.line_width = 0;
            // Measuring only looks as far as the first line break
            self.state.measured_group_fits = false;
        } else {
            self.state.buffer.push(character);
            self.state.line_width += char_width(character, &self.options);
        }
    }

    fn flush_line_suffixes(
        &mut self,
        queue: &mut Queue<'a>,
        stack: &mut CallStack,
        line_break: Option<&'a FormatElement>,
    ) -> bool {
        let suffixes = std::mem::take(&mut self.state.line_suffixes);
        if suffixes.is_empty() {
            return false;
        }
        // The line break comes again once the suffixes have been printed
        if let Some(line_break) = line_break {
            queue.push(line_break);
        }
        for entry in suffixes.into_iter().rev() {
            match entry {
                LineSuffixEntry::Suffix(suffix) => queue.push(suffix),
                LineSuffixEntry::Args(args) => {
                    stack.push(TagKind::LineSuffix, args);
                    queue.push(self.end_suffix);
                }
            }
        }
        true
    }

    fn print_best_fitting(
        &mut self,
        best: &'a BestFittingElement,
        queue: &mut Queue<'a>,
        stack: &mut CallStack,
    ) -> PrintResult<()> {
        let args = stack.top();
        if args.mode.is_flat() && self.state.measured_group_fits {
            return self.print_entry(best.most_flat(), queue, stack, args);
        }
        self.state.measured_group_fits = true;
        let variants = best.variants();
        for variant in &variants[..variants.len() - 1] {
            let entry_args = args.with_mode(PrintMode::Flat);
            let mut measured = queue.clone();
            measured.extend(&variant[1..]);
            stack.push(TagKind::Entry, entry_args);
            let fits = self.fits(&measured, stack)?;
            stack.pop(TagKind::Entry)?;
            if fits {
                return self.print_entry(variant, queue, stack, entry_args);
            }
        }
        self.print_entry(best.most_expanded(), queue, stack, args.with_mode(PrintMode::Expanded))
    }

    fn print_entry(
        &mut self,
        entry: &'a [FormatElement],
        queue: &mut Queue<'a>,
        stack: &mut CallStack,
        args: Args,
    ) -> PrintResult<()> {
        if !matches!(entry.first(), Some(FormatElement::Tag(Tag::StartEntry))) {
            return invalid("a best fitting variant that is not an entry");
        }
        queue.extend(&entry[1..]);
        stack.push(TagKind::Entry, args);
        Ok(())
    }

    /// Whether the line fits with what comes next, up to its first line break
    fn fits(&mut self, queue: &Queue<'a>, stack: &CallStack) -> PrintResult<bool> {
        let mut queue = queue.clone();
        let mut stack = stack.clone();
        let mut state = FitsState {
            pending_indent: self.state.pending_indent,
            pending_space: self.state.pending_space,
            line_width: self.state.line_width,
            has_line_suffix: !self.state.line_suffixes.is_empty(),
        };
        while let Some(element) = queue.pop() {
            match self.fits_element(element, &mut queue, &mut stack, &mut state)? {
                Fits::Yes => return Ok(true),
                Fits::No => return Ok(false),
                Fits::Maybe => {}
            }
        }
        Ok(true)
    }

    fn fits_element(
        &mut self,
        element: &'a FormatElement,
        queue: &mut Queue<'a>,
        stack: &mut CallStack,
        state: &mut FitsState,
    ) -> PrintResult<Fits> {
        let args = stack.top();
        match element {
            FormatElement::Space => {
                if state.line_width > 0 {
                    state.pending_space = true;
                }
            }
            FormatElement::HardSpace => state.pending_space = true,
            FormatElement::Line(mode) => {
                if !args.mode.is_flat() {
                    return Ok(Fits::Yes);
                }
                match mode {
                    LineMode::SoftOrSpace => state.pending_space = true,
                    LineMode::Soft => {}
                    LineMode::Hard | LineMode::Empty => return Ok(Fits::Yes),
                }
            }
            FormatElement::StaticText { text } => return Ok(self.fits_text(text, state)),
            FormatElement::DynamicText { text, .. } => return Ok(self.fits_text(text, state)),
            FormatElement::LocatedTokenText { slice, .. } => {
                return Ok(self.fits_text(slice.text(), state));
            }
            FormatElement::LineSuffixBoundary => {
                if state.has_line_suffix {
                    return Ok(Fits::No);
                }
            }
            FormatElement::ExpandParent => {}
            FormatElement::BestFitting(best) => {
                let entry = match args.mode {
                    PrintMode::Flat => best.most_flat(),
                    PrintMode::Expanded => best.most_expanded(),
                };
                queue.extend(&entry[1..]);
                stack.push(TagKind::Entry, args);
            }
            FormatElement::Interned(content) => queue.extend(content),
            FormatElement::Tag(Tag::StartGroup(group)) => {
                let mode = if group.mode().is_flat() { args.mode } else { PrintMode::Expanded };
                stack.push(TagKind::Group, args.with_mode(mode));
                if let Some(id) = group.id {
                    self.state.group_modes.insert(id.0, mode);
                }
            }
            FormatElement::Tag(Tag::StartIndent) => {
                let indention = args.indention.increment_level(self.options.indent_style);
                stack.push(TagKind::Indent, Args { indention, ..args });
            }
            FormatElement::Tag(Tag::StartAlign(count)) => {
                let mut indention = args.indention;
                indention.align = indention.align.saturating_add(*count);
                stack.push(TagKind::Align, Args { indention, ..args });
            }
            FormatElement::Tag(Tag::StartConditionalContent(condition)) => {
                let mode = match condition.group_id {
                    None => args.mode,
                    Some(id) => {
                        self.state.group_modes.get(&id.0).copied().unwrap_or(args.mode)
                    }
                };
                if condition.mode == mode {
                    stack.push(TagKind::ConditionalContent, args);
                } else {
                    queue.content(TagKind::ConditionalContent)?;
                }
            }
            FormatElement::Tag(Tag::StartLineSuffix) => {
                queue.content(TagKind::LineSuffix)?;
                state.has_line_suffix = true;
            }
            FormatElement::Tag(Tag::StartVerbatim(_)) => stack.push(TagKind::Verbatim, args),
            FormatElement::Tag(Tag::StartEntry) => stack.push(TagKind::Entry, args),
            FormatElement::Tag(tag) => stack.pop(tag.kind())?,
        }
        Ok(Fits::Maybe)
    }

    fn fits_text(&self, text: &str, state: &mut FitsState) -> Fits {
        let indent = std::mem::take(&mut state.pending_indent);
        state.line_width += indent.level as usize * self.options.indent_width.value() as usize
            + indent.align as usize;
        if state.pending_space {
            state.line_width += 1;
        }
        for character in text.chars() {
            if character == '\n' {
                return Fits::Yes;
            }
            state.line_width += char_width(character, &self.options);
        }
        if state.line_width > self.options.print_width.value() as usize {
            return Fits::No;
        }
        state.pending_space = false;
        Fits::Maybe
    }
}

struct FormatElementSync(FormatElement);
// Holds no shared pointer
unsafe impl Sync for FormatElementSync {}

fn char_width(character: char, options: &PrinterOptions) -> usize {
    match character {
        '\t' => options.indent_width.value() as usize,
        _ => character.width().unwrap_or(0),
    }
}
