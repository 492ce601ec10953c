pub use crate::comments::{FormatDanglingComments, FormatLeadingComments, FormatTrailingComments};
use crate::Argument;
use crate::Arguments;
use crate::prelude::*;
use crate::CstFormatContext;
use biome_rowan::{Language, SyntaxToken};

/// Prints something in the place of a token
pub fn format_replaced<'a, 'content, L: Language, Context>(
    token: &'a SyntaxToken<L>,
    content: &'content impl Format<Context>,
) -> FormatReplaced<'a, 'content, L, Context> {
    FormatReplaced { token, content: Argument::new(content) }
}
#[derive(Copy, Clone)]
pub struct FormatReplaced<'a, 'content, L: Language, Context> {
    token: &'a SyntaxToken<L>,
    content: Argument<'content, Context>,
}
impl<L: Language + 'static, Context: CstFormatContext<Language = L>> Format<Context>
    for FormatReplaced<'_, '_, L, Context>
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        f.write_fmt(Arguments::from(&self.content))
    }
}

/// Leaves a token out
pub fn format_removed<L: Language>(token: &SyntaxToken<L>) -> FormatRemoved<'_, L> {
    FormatRemoved { token }
}
pub struct FormatRemoved<'a, L: Language> {
    token: &'a SyntaxToken<L>,
}
impl<C: CstFormatContext<Language = L>, L: Language + 'static> Format<C> for FormatRemoved<'_, L> {
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        f.state_mut().track_token(self.token);
        Ok(())
    }
}
