use crate::comments::{FormatLeadingComments, FormatTrailingComments};
use crate::format_element::VerbatimKind;
use crate::prelude::*;
use crate::token::normalize_newlines;
use crate::{CstFormatContext, FormatWithRule, write};
use biome_rowan::{AstNode, Language, SyntaxNode};

pub fn format_verbatim_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode {
        node,
        kind: VerbatimKind::Verbatim { length: node.text_range_with_trivia().len() },
        format_comments: true,
    }
}
pub fn format_suppressed_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode { node, kind: VerbatimKind::Suppressed, format_comments: true }
}
pub fn format_bogus_node<L: Language>(node: &SyntaxNode<L>) -> FormatVerbatimNode<'_, L> {
    FormatVerbatimNode { node, kind: VerbatimKind::Bogus, format_comments: true }
}

/// Prints a node the way the source has it
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FormatVerbatimNode<'node, L: Language> {
    node: &'node SyntaxNode<L>,
    kind: VerbatimKind,
    format_comments: bool,
}
impl<Context: CstFormatContext> Format<Context> for FormatVerbatimNode<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        for node in self.node.descendants() {
            for comment in comments.leading_dangling_trailing_comments(&node) {
                comment.mark_formatted();
            }
        }
        let trimmed = self.node.text_trimmed_range();
        f.write_element(FormatElement::Tag(Tag::StartVerbatim(self.kind)))?;
        if self.format_comments {
            let leading = comments.leading_comments(self.node);
            let outside =
                leading.partition_point(|c| c.piece().text_range().end() <= trimmed.start());
            write!(f, [FormatLeadingComments::Comments(&leading[..outside])])?;
        }
        let source = self.node.text_trimmed().to_string();
        dynamic_text(
            &normalize_newlines(&source, ['\r', '\u{2028}', '\u{2029}']),
            trimmed.start(),
        )
        .fmt(f)?;
        if self.format_comments {
            let trailing = comments.trailing_comments(self.node);
            let outside =
                trailing.partition_point(|c| c.piece().text_range().end() <= trimmed.end());
            write!(f, [FormatTrailingComments::Comments(&trailing[outside..])])?;
        }
        f.write_element(FormatElement::Tag(Tag::EndVerbatim))
    }
}

/// Formats a node, or prints it verbatim when it has a syntax error
pub fn format_or_verbatim<F>(inner: F) -> FormatNodeOrVerbatim<F> {
    FormatNodeOrVerbatim { inner }
}
pub struct FormatNodeOrVerbatim<F> {
    inner: F,
}
impl<F, Context, Item> Format<Context> for FormatNodeOrVerbatim<F>
where
    F: FormatWithRule<Context, Item = Item>,
    Item: AstNode,
    Context: CstFormatContext<Language = Item::Language>,
{
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let snapshot = Formatter::state_snapshot(f);
        match self.inner.fmt(f) {
            Err(FormatError::SyntaxError) => {
                f.restore_state_snapshot(snapshot);
                format_suppressed_node(self.inner.item().syntax()).fmt(f)
            }
            result => result,
        }
    }
}
