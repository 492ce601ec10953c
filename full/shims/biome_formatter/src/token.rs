use crate::prelude::*;
use crate::{CstFormatContext, FormatElement};
use biome_rowan::{Language, SyntaxToken, TextRange, TextSize, TokenText};
use std::borrow::Cow;
use std::marker::PhantomData;

/// Replaces every line terminator named by `terminators` (and "\r\n") with "\n"
pub fn normalize_newlines<const N: usize>(text: &str, terminators: [char; N]) -> Cow<'_, str> {
    if !text.contains(terminators) {
        return Cow::Borrowed(text);
    }
    let mut result = String::with_capacity(text.len());
    let mut chars = text.chars().peekable();
    while let Some(c) = chars.next() {
        if terminators.contains(&c) {
            if c == '\r' && chars.peek() == Some(&'\n') {
                chars.next();
            }
            result.push('\n');
        } else {
            result.push(c);
        }
    }
    Cow::Owned(result)
}

pub(crate) fn assert_no_carriage_return(text: &str) {
    debug_assert!(
        !text.contains('\r'),
        "The content '{text}' contains an unsupported '\\r' line terminator character but text must only use line feeds '\\n' as line separator."
    );
}

pub fn syntax_token_cow_slice<'a, L: Language>(
    text: Cow<'a, str>,
    token: &'a SyntaxToken<L>,
    start: TextSize,
) -> SyntaxTokenCowSlice<'a, L> {
    assert_no_carriage_return(&text);
    SyntaxTokenCowSlice { text, token, start }
}
pub struct SyntaxTokenCowSlice<'a, L: Language> {
    text: Cow<'a, str>,
    token: &'a SyntaxToken<L>,
    start: TextSize,
}
impl<L: Language, Context> Format<Context> for SyntaxTokenCowSlice<'_, L> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        match &self.text {
            Cow::Borrowed(text) => {
                let range = TextRange::at(self.start, TextSize::try_from(text.len()).unwrap());
                assert_eq!(
                    *text,
                    &self.token.text()[range - self.token.text_range().start()],
                    "The borrowed string doesn't match the specified token substring."
                );
                let relative = range - self.token.text_range().start();
                f.write_element(FormatElement::LocatedTokenText {
                    slice: self.token.token_text().slice(relative),
                    source_position: self.start,
                })
            }
            Cow::Owned(text) => f.write_element(FormatElement::DynamicText {
                text: text.to_string().into_boxed_str(),
                source_position: self.start,
            }),
        }
    }
}

pub struct FormatToken<C> {
    context: PhantomData<C>,
}
impl<C> Default for FormatToken<C> {
    fn default() -> Self {
        Self { context: PhantomData }
    }
}
impl<C: CstFormatContext> FormatRule<SyntaxToken<C::Language>> for FormatToken<C>
where
    C::Language: 'static,
{
    type Context = C;
    fn fmt(&self, token: &SyntaxToken<C::Language>, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(token);
        let slice: TokenText = token.token_text_trimmed();
        assert_no_carriage_return(&slice);
        f.write_element(FormatElement::LocatedTokenText {
            source_position: token.text_trimmed_range().start(),
            slice,
        })
    }
}
