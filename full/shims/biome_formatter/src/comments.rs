//! Attaches every comment to a node and formats the attached comments.

use crate::prelude::*;
use crate::{CstFormatContext, FormatRefWithRule, TransformSourceMap, write};
use biome_rowan::{
    Direction, Language, SyntaxElement, SyntaxNode, SyntaxToken, SyntaxTriviaPieceComments,
    WalkEvent,
};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::{self, Debug};
use std::rc::Rc;

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum CommentKind {
    InlineBlock,
    Block,
    Line,
}
impl CommentKind {
    pub const fn is_line(&self) -> bool {
        matches!(self, CommentKind::Line)
    }
    pub const fn is_block(&self) -> bool {
        matches!(self, CommentKind::Block)
    }
    pub const fn is_inline_block(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
    pub const fn is_inline(&self) -> bool {
        matches!(self, CommentKind::InlineBlock)
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum CommentTextPosition {
    /// On a line with code before it only
    EndOfLine,
    /// With code on both sides
    SameLine,
    /// Alone on its line
    OwnLine,
}
impl CommentTextPosition {
    pub const fn is_same_line(&self) -> bool {
        matches!(self, CommentTextPosition::SameLine)
    }
    pub const fn is_own_line(&self) -> bool {
        matches!(self, CommentTextPosition::OwnLine)
    }
    pub const fn is_end_of_line(&self) -> bool {
        matches!(self, CommentTextPosition::EndOfLine)
    }
}

pub trait CommentStyle: Default {
    type Language: Language;
    fn is_suppression(_text: &str) -> bool {
        false
    }
    fn get_comment_kind(comment: &SyntaxTriviaPieceComments<Self::Language>) -> CommentKind;
    fn place_comment(
        &self,
        comment: DecoratedComment<Self::Language>,
    ) -> CommentPlacement<Self::Language> {
        CommentPlacement::Default(comment)
    }
}

#[derive(Debug, Clone)]
pub struct SourceComment<L: Language> {
    lines_before: u32,
    lines_after: u32,
    piece: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
    formatted: Cell<bool>,
}
impl<L: Language> SourceComment<L> {
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.piece
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn mark_formatted(&self) {
        self.formatted.set(true)
    }
}

#[derive(Debug, Clone)]
pub struct DecoratedComment<L: Language> {
    enclosing: SyntaxNode<L>,
    preceding: Option<SyntaxNode<L>>,
    following: Option<SyntaxNode<L>>,
    following_token: Option<SyntaxToken<L>>,
    text_position: CommentTextPosition,
    lines_before: u32,
    lines_after: u32,
    comment: SyntaxTriviaPieceComments<L>,
    kind: CommentKind,
}
impl<L: Language> DecoratedComment<L> {
    pub fn enclosing_node(&self) -> &SyntaxNode<L> {
        &self.enclosing
    }
    pub fn piece(&self) -> &SyntaxTriviaPieceComments<L> {
        &self.comment
    }
    pub fn preceding_node(&self) -> Option<&SyntaxNode<L>> {
        self.preceding.as_ref()
    }
    pub fn following_node(&self) -> Option<&SyntaxNode<L>> {
        self.following.as_ref()
    }
    pub fn take_preceding_node(&mut self) -> Option<SyntaxNode<L>> {
        self.preceding.take()
    }
    pub fn take_following_node(&mut self) -> Option<SyntaxNode<L>> {
        self.following.take()
    }
    pub fn following_token(&self) -> Option<&SyntaxToken<L>> {
        self.following_token.as_ref()
    }
    pub fn kind(&self) -> CommentKind {
        self.kind
    }
    pub fn text_position(&self) -> CommentTextPosition {
        self.text_position
    }
    pub fn lines_before(&self) -> u32 {
        self.lines_before
    }
    pub fn lines_after(&self) -> u32 {
        self.lines_after
    }
}
impl<L: Language> From<DecoratedComment<L>> for SourceComment<L> {
    fn from(comment: DecoratedComment<L>) -> Self {
        Self {
            lines_before: comment.lines_before,
            lines_after: comment.lines_after,
            piece: comment.comment,
            kind: comment.kind,
            formatted: Cell::new(false),
        }
    }
}

#[derive(Debug)]
pub enum CommentPlacement<L: Language> {
    Leading { node: SyntaxNode<L>, comment: SourceComment<L> },
    Trailing { node: SyntaxNode<L>, comment: SourceComment<L> },
    Dangling { node: SyntaxNode<L>, comment: SourceComment<L> },
    Default(DecoratedComment<L>),
}
impl<L: Language> CommentPlacement<L> {
    pub fn leading(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Leading { node, comment: comment.into() }
    }
    pub fn dangling(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Dangling { node, comment: comment.into() }
    }
    pub fn trailing(node: SyntaxNode<L>, comment: impl Into<SourceComment<L>>) -> Self {
        Self::Trailing { node, comment: comment.into() }
    }
    pub fn or_else<F: FnOnce(DecoratedComment<L>) -> CommentPlacement<L>>(self, f: F) -> Self {
        match self {
            CommentPlacement::Default(comment) => f(comment),
            placement => placement,
        }
    }
}

struct NodeComments<L: Language> {
    leading: Vec<SourceComment<L>>,
    dangling: Vec<SourceComment<L>>,
    trailing: Vec<SourceComment<L>>,
    /// leading, then dangling, then trailing
    all: Vec<SourceComment<L>>,
}
impl<L: Language> Default for NodeComments<L> {
    fn default() -> Self {
        Self { leading: vec![], dangling: vec![], trailing: vec![], all: vec![] }
    }
}

struct CommentsData<L: Language> {
    is_suppression: fn(&str) -> bool,
    comments: HashMap<SyntaxNode<L>, NodeComments<L>>,
}

pub struct Comments<L: Language> {
    data: Rc<CommentsData<L>>,
}
impl<L: Language> Clone for Comments<L> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone() }
    }
}
impl<L: Language> Debug for Comments<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Comments").finish_non_exhaustive()
    }
}
impl<L: Language> Comments<L> {
    pub fn from_node<Style: CommentStyle<Language = L>>(
        root: &SyntaxNode<L>,
        style: &Style,
        _source_map: Option<&TransformSourceMap>,
    ) -> Self {
        let mut comments = Visitor::new(root, style).visit();
        for node in comments.values_mut() {
            node.all = node.leading.clone();
            node.all.extend(node.dangling.iter().cloned());
            node.all.extend(node.trailing.iter().cloned());
        }
        Self { data: Rc::new(CommentsData { is_suppression: Style::is_suppression, comments }) }
    }
    pub fn has_comments(&self, node: &SyntaxNode<L>) -> bool {
        self.data.comments.contains_key(node)
    }
    pub fn has_leading_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.leading_comments(node).is_empty()
    }
    pub fn has_leading_own_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.leading_comments(node).iter().any(|comment| comment.lines_after() > 0)
    }
    pub fn leading_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.data.comments.get(node).map_or(&[], |c| &c.leading)
    }
    pub fn has_dangling_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.dangling_comments(node).is_empty()
    }
    pub fn dangling_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.data.comments.get(node).map_or(&[], |c| &c.dangling)
    }
    pub fn trailing_comments(&self, node: &SyntaxNode<L>) -> &[SourceComment<L>] {
        self.data.comments.get(node).map_or(&[], |c| &c.trailing)
    }
    pub fn has_trailing_line_comment(&self, node: &SyntaxNode<L>) -> bool {
        self.trailing_comments(node).iter().any(|comment| comment.kind().is_line())
    }
    pub fn has_trailing_comments(&self, node: &SyntaxNode<L>) -> bool {
        !self.trailing_comments(node).is_empty()
    }
    pub fn leading_trailing_comments(
        &self,
        node: &SyntaxNode<L>,
    ) -> impl Iterator<Item = &SourceComment<L>> {
        self.leading_comments(node).iter().chain(self.trailing_comments(node))
    }
    pub fn leading_dangling_trailing_comments<'a>(
        &'a self,
        node: &SyntaxNode<L>,
    ) -> impl Iterator<Item = &'a SourceComment<L>> + use<'a, L> {
        let all: &'a [SourceComment<L>] = self.data.comments.get(node).map_or(&[], |c| &c.all);
        all.iter()
    }
    pub fn is_suppressed(&self, node: &SyntaxNode<L>) -> bool {
        self.mark_suppression_checked(node);
        self.leading_dangling_trailing_comments(node)
            .any(|comment| (self.data.is_suppression)(comment.piece().text()))
    }
    pub fn mark_suppression_checked(&self, _node: &SyntaxNode<L>) {}
    pub fn has_skipped(&self, _token: &SyntaxToken<L>) -> bool {
        false
    }
}

struct Visitor<'a, Style: CommentStyle> {
    style: &'a Style,
    root: &'a SyntaxNode<Style::Language>,
    comments: HashMap<SyntaxNode<Style::Language>, NodeComments<Style::Language>>,
    pending: Vec<DecoratedComment<Style::Language>>,
    preceding_node: Option<SyntaxNode<Style::Language>>,
    following_node_index: Option<usize>,
    parents: Vec<SyntaxNode<Style::Language>>,
    last_token: Option<SyntaxToken<Style::Language>>,
}

impl<'a, Style: CommentStyle> Visitor<'a, Style> {
    fn new(root: &'a SyntaxNode<Style::Language>, style: &'a Style) -> Self {
        Self {
            style,
            root,
            comments: HashMap::new(),
            pending: Vec::new(),
            preceding_node: None,
            following_node_index: None,
            parents: Vec::new(),
            last_token: None,
        }
    }

    fn visit(mut self) -> HashMap<SyntaxNode<Style::Language>, NodeComments<Style::Language>> {
        for event in self.root.preorder_with_tokens(Direction::Next) {
            match event {
                WalkEvent::Enter(SyntaxElement::Node(node)) => self.enter(node),
                WalkEvent::Leave(SyntaxElement::Node(node)) => self.leave(node),
                WalkEvent::Enter(SyntaxElement::Token(token)) => self.visit_token(Some(token)),
                WalkEvent::Leave(SyntaxElement::Token(_)) => {}
            }
        }
        assert!(self.parents.is_empty(), "there are nodes that were entered and never left");
        if self.last_token.is_some() {
            self.parents.push(self.root.clone());
            self.visit_token(None);
            self.flush_comments(None);
        }
        self.comments
    }

    fn enter(&mut self, node: SyntaxNode<Style::Language>) {
        // Lists have no comments: these belong to the parent or to an item
        if node.kind_is_list() {
            return;
        }
        let is_root = matches!(self.following_node_index, Some(0));
        // A comment goes to the outermost of the nodes that begin after it
        if self.following_node_index.is_none() || is_root {
            self.flush_comments(Some(&node));
            self.following_node_index = Some(self.parents.len());
        }
        self.parents.push(node);
    }

    fn leave(&mut self, node: SyntaxNode<Style::Language>) {
        if node.kind_is_list() {
            return;
        }
        self.parents.pop().unwrap();
        self.following_node_index = None;
        self.flush_comments(None);
        self.preceding_node = Some(node);
    }

    fn following_node(&self) -> Option<&SyntaxNode<Style::Language>> {
        self.following_node_index.map(|index| &self.parents[index])
    }

    fn enclosing_node(&self) -> &SyntaxNode<Style::Language> {
        match self.following_node_index {
            None => self.parents.last().unwrap_or(self.root),
            Some(0) => &self.parents[0],
            Some(index) => &self.parents[index - 1],
        }
    }

    fn visit_token(&mut self, token: Option<SyntaxToken<Style::Language>>) {
        let last = self.last_token.take();
        let first = self.pending.len();
        let mut position = CommentTextPosition::EndOfLine;
        let mut lines_before = 0;
        let trailing = last.into_iter().flat_map(|t| t.trailing_trivia().pieces());
        let leading = token.clone().into_iter().flat_map(|t| t.leading_trivia().pieces());
        for piece in trailing.chain(leading).collect::<Vec<_>>() {
            if piece.is_newline() {
                lines_before += 1;
                position = CommentTextPosition::OwnLine;
            } else if let Some(comment) = piece.as_comments() {
                if self.pending.len() > first {
                    self.pending.last_mut().unwrap().lines_after = lines_before;
                }
                let kind = Style::get_comment_kind(&comment);
                self.pending.push(DecoratedComment {
                    enclosing: self.enclosing_node().clone(),
                    preceding: self.preceding_node.clone(),
                    following: None,
                    following_token: token.clone(),
                    text_position: position,
                    lines_before,
                    lines_after: 0,
                    comment,
                    kind,
                });
                lines_before = 0;
            }
        }
        if self.pending.len() > first {
            self.pending.last_mut().unwrap().lines_after = lines_before;
        }
        self.last_token = token;
        if let Some(following) = self.following_node().cloned() {
            self.flush_comments(Some(&following));
            // Only the first token of a node has the node following it
            self.following_node_index = None;
            self.preceding_node = None;
        }
    }

    fn flush_comments(&mut self, following: Option<&SyntaxNode<Style::Language>>) {
        for mut comment in std::mem::take(&mut self.pending) {
            comment.following = following.cloned();
            let placement = self.style.place_comment(comment);
            self.add(placement);
        }
    }

    fn add(&mut self, placement: CommentPlacement<Style::Language>) {
        match placement {
            CommentPlacement::Leading { node, comment } => {
                self.comments.entry(node).or_default().leading.push(comment)
            }
            CommentPlacement::Trailing { node, comment } => {
                self.comments.entry(node).or_default().trailing.push(comment)
            }
            CommentPlacement::Dangling { node, comment } => {
                self.comments.entry(node).or_default().dangling.push(comment)
            }
            CommentPlacement::Default(mut comment) => {
                let preceding = comment.take_preceding_node();
                let following = comment.take_following_node();
                let enclosing = comment.enclosing_node().clone();
                let placement = match (comment.text_position(), preceding, following) {
                    (CommentTextPosition::EndOfLine, Some(preceding), _) => {
                        CommentPlacement::trailing(preceding, comment)
                    }
                    (CommentTextPosition::EndOfLine, None, Some(following)) => {
                        CommentPlacement::leading(following, comment)
                    }
                    (CommentTextPosition::OwnLine, _, Some(following)) => {
                        CommentPlacement::leading(following, comment)
                    }
                    (CommentTextPosition::OwnLine, Some(preceding), None) => {
                        CommentPlacement::trailing(preceding, comment)
                    }
                    (CommentTextPosition::SameLine, Some(preceding), None) => {
                        CommentPlacement::trailing(preceding, comment)
                    }
                    (CommentTextPosition::SameLine, _, Some(following)) => {
                        CommentPlacement::leading(following, comment)
                    }
                    (_, None, None) => CommentPlacement::dangling(enclosing, comment),
                };
                self.add(placement)
            }
        }
    }
}
trait KindIsList {
    fn kind_is_list(&self) -> bool;
}
impl<L: Language> KindIsList for SyntaxNode<L> {
    fn kind_is_list(&self) -> bool {
        self.is_list()
    }
}

pub const fn format_leading_comments<L: Language>(
    node: &SyntaxNode<L>,
) -> FormatLeadingComments<'_, L> {
    FormatLeadingComments::Node(node)
}
#[derive(Debug, Copy, Clone)]
pub enum FormatLeadingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}
impl<Context: CstFormatContext> Format<Context> for FormatLeadingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let leading = match self {
            Self::Node(node) => comments.leading_comments(node),
            Self::Comments(comments) => comments,
        };
        for comment in leading {
            let format = FormatRefWithRule::new(comment, Context::CommentRule::default());
            write!(f, [format])?;
            match (comment.kind(), comment.lines_after()) {
                (CommentKind::Line, 0 | 1) => write!(f, [hard_line_break()])?,
                (CommentKind::Line, _) => write!(f, [empty_line()])?,
                (_, 0) => write!(f, [space()])?,
                (_, 1) => write!(f, [hard_line_break()])?,
                (_, _) => write!(f, [empty_line()])?,
            }
            comment.mark_formatted();
        }
        Ok(())
    }
}

pub const fn format_trailing_comments<L: Language>(
    node: &SyntaxNode<L>,
) -> FormatTrailingComments<'_, L> {
    FormatTrailingComments::Node(node)
}
#[derive(Debug, Clone, Copy)]
pub enum FormatTrailingComments<'a, L: Language> {
    Node(&'a SyntaxNode<L>),
    Comments(&'a [SourceComment<L>]),
}
impl<Context: CstFormatContext> Format<Context> for FormatTrailingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let trailing = match self {
            Self::Node(node) => comments.trailing_comments(node),
            Self::Comments(comments) => comments,
        };
        let mut total_lines_before = 0;
        for comment in trailing {
            total_lines_before += comment.lines_before();
            let format = FormatRefWithRule::new(comment, Context::CommentRule::default());
            if total_lines_before > 0 {
                let content = format_with(|f: &mut Formatter<Context>| {
                    match comment.lines_before() {
                        0 | 1 => write!(f, [hard_line_break()])?,
                        _ => write!(f, [empty_line()])?,
                    }
                    write!(f, [format])
                });
                write!(f, [line_suffix(&content), expand_parent()])?;
            } else {
                let content = format_with(|f: &mut Formatter<Context>| write!(f, [space(), format]));
                if comment.kind().is_line() {
                    write!(f, [line_suffix(&content), expand_parent()])?;
                } else {
                    write!(f, [content])?;
                }
            }
            comment.mark_formatted();
        }
        Ok(())
    }
}

#[derive(Copy, Clone, Debug)]
pub enum DanglingIndentMode {
    Block,
    Soft,
    SoftSpace,
    None,
}
pub const fn format_dangling_comments<L: Language>(
    node: &SyntaxNode<L>,
) -> FormatDanglingComments<'_, L> {
    FormatDanglingComments { node, indent: DanglingIndentMode::None }
}
#[derive(Debug, Clone, Copy)]
pub struct FormatDanglingComments<'a, L: Language> {
    node: &'a SyntaxNode<L>,
    indent: DanglingIndentMode,
}
impl<L: Language> FormatDanglingComments<'_, L> {
    pub fn with_block_indent(mut self) -> Self {
        self.indent = DanglingIndentMode::Block;
        self
    }
    pub fn with_soft_block_indent(mut self) -> Self {
        self.indent = DanglingIndentMode::Soft;
        self
    }
    pub fn with_soft_space_indent(mut self) -> Self {
        self.indent = DanglingIndentMode::SoftSpace;
        self
    }
}
impl<Context: CstFormatContext> Format<Context> for FormatDanglingComments<'_, Context::Language> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        let comments = f.context().comments().clone();
        let dangling = comments.dangling_comments(self.node);
        if dangling.is_empty() {
            return Ok(());
        }
        let content = format_with(|f: &mut Formatter<Context>| {
            let mut join = f.join_with(soft_line_break_or_space());
            for comment in dangling {
                join.entry(&FormatRefWithRule::new(comment, Context::CommentRule::default()));
                comment.mark_formatted();
            }
            join.finish()?;
            if dangling.last().is_some_and(|comment| comment.kind().is_line()) {
                write!(f, [hard_line_break()])?;
            }
            Ok(())
        });
        match self.indent {
            DanglingIndentMode::Block => write!(f, [block_indent(&content)]),
            DanglingIndentMode::Soft => write!(f, [group(&soft_block_indent(&content))]),
            DanglingIndentMode::SoftSpace => {
                write!(f, [group(&soft_space_or_block_indent(&content))])
            }
            DanglingIndentMode::None => write!(f, [content]),
        }
    }
}
