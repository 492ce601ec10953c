use crate::prelude::*;
use crate::{CstFormatContext, write};
use biome_rowan::{AstNode, AstSeparatedElement, Language, SyntaxResult, SyntaxToken};
use std::iter::FusedIterator;

#[derive(Debug, Copy, Clone, Eq, PartialEq, Default)]
pub enum TrailingSeparator {
    #[default]
    Allowed,
    Disallowed,
    Mandatory,
    Omit,
}

pub trait FormatSeparatedElementRule<N: AstNode> {
    type Context;
    type FormatNode<'a>: Format<Self::Context>
    where
        N: 'a;
    type FormatSeparator<'a>: Format<Self::Context>
    where
        N: 'a;
    fn format_node<'a>(&self, node: &'a N) -> Self::FormatNode<'a>;
    fn format_separator<'a>(
        &self,
        separator: &'a SyntaxToken<N::Language>,
    ) -> Self::FormatSeparator<'a>;
}

pub struct FormatSeparatedElement<N: AstNode, R> {
    element: AstSeparatedElement<N::Language, N>,
    rule: R,
    is_last: bool,
    separator: &'static str,
    trailing_separator: TrailingSeparator,
    nodes_grouped: bool,
}
impl<N: AstNode, R> FormatSeparatedElement<N, R> {
    pub fn node(&self) -> SyntaxResult<&N> {
        self.element.node()
    }
}
impl<N, R, C> Format<C> for FormatSeparatedElement<N, R>
where
    N: AstNode + 'static,
    N::Language: 'static,
    R: FormatSeparatedElementRule<N, Context = C>,
    C: CstFormatContext<Language = N::Language>,
{
    fn fmt(&self, f: &mut Formatter<C>) -> FormatResult<()> {
        let node = self.element.node()?;
        let separator = self.element.trailing_separator()?;
        let format_node = self.rule.format_node(node);
        if self.nodes_grouped {
            group(&format_node).fmt(f)?;
        } else {
            format_node.fmt(f)?;
        }
        match separator {
            Some(separator) if self.is_last => match self.trailing_separator {
                TrailingSeparator::Allowed => {
                    write!(f, [if_group_breaks(&self.rule.format_separator(separator))])
                }
                TrailingSeparator::Mandatory => write!(f, [self.rule.format_separator(separator)]),
                TrailingSeparator::Disallowed => Err(FormatError::SyntaxError),
                TrailingSeparator::Omit => write!(f, [format_removed(separator)]),
            },
            Some(separator) => write!(f, [self.rule.format_separator(separator)]),
            None if self.is_last => match self.trailing_separator {
                TrailingSeparator::Allowed => write!(f, [if_group_breaks(&text(self.separator))]),
                TrailingSeparator::Mandatory => write!(f, [text(self.separator)]),
                TrailingSeparator::Disallowed | TrailingSeparator::Omit => Ok(()),
            },
            None => unreachable!("a separator must be present between every two elements"),
        }
    }
}

pub struct FormatSeparatedIter<I, N: AstNode, R> {
    next: Option<AstSeparatedElement<N::Language, N>>,
    rule: R,
    inner: I,
    separator: &'static str,
    trailing_separator: TrailingSeparator,
    nodes_grouped: bool,
}
impl<I, L: Language, N: AstNode<Language = L>, R> FormatSeparatedIter<I, N, R>
where
    I: Iterator<Item = AstSeparatedElement<L, N>>,
{
    pub fn new(inner: I, separator: &'static str, rule: R) -> Self {
        Self {
            next: None,
            rule,
            inner,
            separator,
            trailing_separator: TrailingSeparator::Allowed,
            nodes_grouped: false,
        }
    }
    pub fn nodes_grouped(mut self) -> Self {
        self.nodes_grouped = true;
        self
    }
    pub fn with_trailing_separator(mut self, separator: TrailingSeparator) -> Self {
        self.trailing_separator = separator;
        self
    }
}
impl<I, N: AstNode, R: Clone> Iterator for FormatSeparatedIter<I, N, R>
where
    I: Iterator<Item = AstSeparatedElement<N::Language, N>>,
{
    type Item = FormatSeparatedElement<N, R>;
    fn next(&mut self) -> Option<Self::Item> {
        let element = self.next.take().or_else(|| self.inner.next())?;
        self.next = self.inner.next();
        Some(FormatSeparatedElement {
            element,
            rule: self.rule.clone(),
            is_last: self.next.is_none(),
            separator: self.separator,
            trailing_separator: self.trailing_separator,
            nodes_grouped: self.nodes_grouped,
        })
    }
}
impl<I, N: AstNode, R: Clone> FusedIterator for FormatSeparatedIter<I, N, R> where
    I: Iterator<Item = AstSeparatedElement<N::Language, N>> + FusedIterator
{
}
