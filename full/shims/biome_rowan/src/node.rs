use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::FusedIterator;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

use crate::TokenText;
use crate::green::{GreenElement, GreenNode, GreenToken};
use crate::kinds::*;
use crate::trivia::*;
use biome_text_size::{TextRange, TextSize};

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Direction {
    Next,
    Prev,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum WalkEvent<T> {
    Enter(T),
    Leave(T),
}
impl<T> WalkEvent<T> {
    pub fn map<F: FnOnce(T) -> U, U>(self, f: F) -> WalkEvent<U> {
        match self {
            WalkEvent::Enter(it) => WalkEvent::Enter(f(it)),
            WalkEvent::Leave(it) => WalkEvent::Leave(f(it)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum TokenAtOffset<T> {
    None,
    Single(T),
    Between(T, T),
}
impl<T> TokenAtOffset<T> {
    pub fn right_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(t) | TokenAtOffset::Between(_, t) => Some(t),
        }
    }
    pub fn left_biased(self) -> Option<T> {
        match self {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(t) | TokenAtOffset::Between(t, _) => Some(t),
        }
    }
    pub fn map<F: Fn(T) -> U, U>(self, f: F) -> TokenAtOffset<U> {
        match self {
            TokenAtOffset::None => TokenAtOffset::None,
            TokenAtOffset::Single(t) => TokenAtOffset::Single(f(t)),
            TokenAtOffset::Between(a, b) => TokenAtOffset::Between(f(a), f(b)),
        }
    }
}

struct NodeData {
    green: GreenNode,
    parent: Option<(Rc<NodeData>, usize)>,
    offset: TextSize,
}

pub struct SyntaxNode<L: Language> {
    data: Rc<NodeData>,
    _p: PhantomData<L>,
}

impl<L: Language> Clone for SyntaxNode<L> {
    fn clone(&self) -> Self {
        Self::wrap(self.data.clone())
    }
}
impl<L: Language> PartialEq for SyntaxNode<L> {
    fn eq(&self, other: &Self) -> bool {
        Rc::ptr_eq(&self.data, &other.data)
            || (Arc::ptr_eq(&self.data.green.0, &other.data.green.0)
                && self.data.offset == other.data.offset)
    }
}
impl<L: Language> Eq for SyntaxNode<L> {}
impl<L: Language> Hash for SyntaxNode<L> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        Arc::as_ptr(&self.data.green.0).hash(state);
        self.data.offset.hash(state);
    }
}

impl<L: Language> SyntaxNode<L> {
    fn wrap(data: Rc<NodeData>) -> Self {
        Self { data, _p: PhantomData }
    }
    pub(crate) fn new_root_green(green: GreenNode) -> Self {
        Self::wrap(Rc::new(NodeData { green, parent: None, offset: TextSize::from(0) }))
    }

    /// Tree sink: makes a root out of a finished raw node
    pub fn new_root(raw: crate::factory::RawSyntaxNode<L::Kind>) -> Self {
        Self::new_root_green(raw.into_green())
    }

    pub fn new_detached<I>(kind: L::Kind, slots: I) -> SyntaxNode<L>
    where
        I: IntoIterator<Item = Option<SyntaxElement<L>>>,
    {
        SyntaxNode::new_root_green(GreenNode::new(
            kind.to_raw(),
            slots.into_iter().map(|slot| {
                slot.map(|element| match element {
                    SyntaxElement::Node(node) => GreenElement::Node(node.data.green.clone()),
                    SyntaxElement::Token(token) => GreenElement::Token(token.green.clone()),
                })
            }),
        ))
    }

    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.data.green.0.kind)
    }
    pub fn is_list(&self) -> bool {
        self.kind().is_list()
    }
    pub fn is_root(&self) -> bool {
        self.kind().is_root()
    }

    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.data.offset, self.data.green.0.len)
    }
    pub fn text_range_with_trivia(&self) -> TextRange {
        self.text_range()
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        let range = self.text_range();
        let mut start = range.start();
        let mut end = range.end();
        if let Some(first) = self.first_token() {
            start = first.text_trimmed_range().start();
        }
        if let Some(last) = self.last_token() {
            end = last.text_trimmed_range().end();
        }
        // A tree of empty tokens only
        TextRange::new(start, end.max(start))
    }

    fn full_text(&self) -> String {
        fn go(green: &GreenNode, out: &mut String) {
            for (_, slot) in green.0.slots.iter() {
                match slot {
                    Some(GreenElement::Node(n)) => go(n, out),
                    Some(GreenElement::Token(t)) => out.push_str(t.text()),
                    None => {}
                }
            }
        }
        let mut out = String::new();
        go(&self.data.green, &mut out);
        out
    }
    /// Text with all trivia
    pub fn text_with_trivia(&self) -> SyntaxNodeText {
        SyntaxNodeText { text: self.full_text() }
    }
    pub fn text(&self) -> SyntaxNodeText {
        self.text_with_trivia()
    }
    pub fn text_trimmed(&self) -> SyntaxNodeText {
        let text = self.full_text();
        let range = self.text_trimmed_range() - self.data.offset;
        SyntaxNodeText { text: text[range].to_string() }
    }

    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.data.parent.as_ref().map(|(p, _)| Self::wrap(p.clone()))
    }
    pub fn grand_parent(&self) -> Option<SyntaxNode<L>> {
        self.parent().and_then(|p| p.parent())
    }
    pub fn index(&self) -> usize {
        self.data.parent.as_ref().map_or(0, |(_, i)| *i)
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), SyntaxNode::parent)
    }

    pub(crate) fn slot_count(&self) -> usize {
        self.data.green.0.slots.len()
    }
    pub(crate) fn element_in_slot(&self, index: usize) -> Option<SyntaxElement<L>> {
        let (at, slot) = self.data.green.0.slots.get(index)?;
        let offset = self.data.offset + *at;
        match slot.as_ref()? {
            GreenElement::Node(green) => Some(SyntaxElement::Node(Self::wrap(Rc::new(NodeData {
                green: green.clone(),
                parent: Some((self.data.clone(), index)),
                offset,
            })))),
            GreenElement::Token(green) => Some(SyntaxElement::Token(SyntaxToken {
                green: green.clone(),
                parent: Some((self.clone(), index)),
                offset,
            })),
        }
    }

    pub fn slots(&self) -> SyntaxSlots<L> {
        SyntaxSlots { node: self.clone(), front: 0, back: self.slot_count() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { slots: self.slots() }
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren { slots: self.slots() }
    }
    pub fn tokens(&self) -> impl DoubleEndedIterator<Item = SyntaxToken<L>> + use<L> {
        self.children_with_tokens().filter_map(SyntaxElement::into_token)
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next()
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.children().next_back()
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next()
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.children_with_tokens().next_back()
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let parent = self.parent()?;
        (self.index() + 1..parent.slot_count()).find_map(|i| parent.element_in_slot(i))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let parent = self.parent()?;
        (0..self.index()).rev().find_map(|i| parent.element_in_slot(i))
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        let parent = self.parent()?;
        (self.index() + 1..parent.slot_count())
            .find_map(|i| parent.element_in_slot(i).and_then(SyntaxElement::into_node))
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        let parent = self.parent()?;
        (0..self.index())
            .rev()
            .find_map(|i| parent.element_in_slot(i).and_then(SyntaxElement::into_node))
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), move |node| match direction {
            Direction::Next => node.next_sibling(),
            Direction::Prev => node.prev_sibling(),
        })
    }

    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.descendants_tokens(Direction::Next).next()
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.descendants_tokens(Direction::Prev).next()
    }
    pub fn first_leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.first_token().map(|t| t.leading_trivia())
    }
    pub fn last_trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        self.last_token().map(|t| t.trailing_trivia())
    }

    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens(direction).filter_map(|event| match event {
            WalkEvent::Enter(element) => Some(element),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_tokens(
        &self,
        direction: Direction,
    ) -> impl Iterator<Item = SyntaxToken<L>> + use<L> {
        self.descendants_with_tokens(direction).filter_map(SyntaxElement::into_token)
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())) }
    }
    pub fn preorder_with_tokens(&self, direction: Direction) -> PreorderWithTokens<L> {
        PreorderWithTokens {
            start: SyntaxElement::Node(self.clone()),
            next: Some(WalkEvent::Enter(SyntaxElement::Node(self.clone()))),
            direction,
        }
    }

    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        let mut hits =
            self.descendants_tokens(Direction::Next).filter(|t| {
                let range = t.text_range();
                !range.is_empty() && range.contains_inclusive(offset)
            });
        match (hits.next(), hits.next()) {
            (None, _) => TokenAtOffset::None,
            (Some(t), None) => TokenAtOffset::Single(t),
            (Some(a), Some(b)) => TokenAtOffset::Between(a, b),
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        let mut res = SyntaxElement::Node(self.clone());
        loop {
            assert!(res.text_range().contains_range(range), "range {range:?} is outside");
            let SyntaxElement::Node(node) = &res else { return res };
            let next = node
                .children_with_tokens()
                .find(|child| child.text_range().contains_range(range));
            match next {
                Some(next) => res = next,
                None => return res,
            }
        }
    }

    pub fn into_list(self) -> SyntaxList<L> {
        SyntaxList { list: self }
    }

    pub fn has_comments_descendants(&self) -> bool {
        self.descendants_tokens(Direction::Next)
            .any(|t| t.has_leading_comments() || t.has_trailing_comments())
    }
    pub fn has_comments_direct(&self) -> bool {
        self.has_leading_comments() || self.has_trailing_comments()
    }
    pub fn first_or_last_token_have_comments(&self) -> bool {
        self.has_comments_direct()
    }
    pub fn has_leading_comments(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_comments())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.last_token().is_some_and(|t| t.has_trailing_comments())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.first_token().is_some_and(|t| t.has_leading_non_whitespace_trivia())
    }

    /// `None` unless this is a root
    pub fn has_leading_newline(&self) -> bool {
        self.first_token().is_some_and(|token| token.has_leading_newline())
    }
    pub fn as_send(&self) -> Option<SendNode> {
        self.data.parent.is_none().then(|| SendNode {
            language: std::any::type_name::<L>(),
            green: self.data.green.clone(),
        })
    }

    /// The same text and structure, but not inside of any tree
    pub fn detach(self) -> Self {
        Self::new_root_green(self.data.green.clone())
    }
}

impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.full_text())
    }
}

impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if !f.alternate() {
            return write!(f, "{:?}@{:?}", self.kind(), self.text_range());
        }
        fn go<L: Language>(
            node: &SyntaxNode<L>,
            slot: usize,
            level: usize,
            f: &mut fmt::Formatter<'_>,
        ) -> fmt::Result {
            let pad = "  ".repeat(level);
            writeln!(f, "{pad}{slot}: {:?}@{:?}", node.kind(), node.text_range())?;
            for slot in 0..node.slot_count() {
                match node.element_in_slot(slot) {
                    Some(SyntaxElement::Node(child)) => go(&child, slot, level + 1, f)?,
                    Some(SyntaxElement::Token(token)) => writeln!(f, "{pad}  {slot}: {token:?}")?,
                    None => writeln!(f, "{pad}  {slot}: (empty)")?,
                }
            }
            Ok(())
        }
        go(self, self.index(), 0, f)
    }
}

/// A root that can move to another thread
#[derive(Debug, Clone)]
pub struct SendNode {
    language: &'static str,
    green: GreenNode,
}
impl SendNode {
    pub fn into_node<L: Language>(self) -> Option<SyntaxNode<L>> {
        (self.language == std::any::type_name::<L>())
            .then(|| SyntaxNode::new_root_green(self.green))
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SyntaxNodeText {
    text: String,
}
impl SyntaxNodeText {
    pub fn len(&self) -> TextSize {
        TextSize::of(self.text.as_str())
    }
    pub fn is_empty(&self) -> bool {
        self.text.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.text.contains(c)
    }
    pub fn to_string(&self) -> String {
        self.text.clone()
    }
}
impl fmt::Display for SyntaxNodeText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}
impl From<SyntaxNodeText> for String {
    fn from(text: SyntaxNodeText) -> String {
        text.to_string()
    }
}
impl PartialEq<str> for SyntaxNodeText {
    fn eq(&self, other: &str) -> bool {
        self.text == other
    }
}
impl PartialEq<&str> for SyntaxNodeText {
    fn eq(&self, other: &&str) -> bool {
        self.text == *other
    }
}

pub struct SyntaxToken<L: Language> {
    green: GreenToken,
    parent: Option<(SyntaxNode<L>, usize)>,
    offset: TextSize,
}

impl<L: Language> Clone for SyntaxToken<L> {
    fn clone(&self) -> Self {
        Self { green: self.green.clone(), parent: self.parent.clone(), offset: self.offset }
    }
}
impl<L: Language> PartialEq for SyntaxToken<L> {
    fn eq(&self, other: &Self) -> bool {
        Arc::ptr_eq(&self.green.0, &other.green.0) && self.offset == other.offset
    }
}
impl<L: Language> Eq for SyntaxToken<L> {}
impl<L: Language> Hash for SyntaxToken<L> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        Arc::as_ptr(&self.green.0).hash(state);
        self.offset.hash(state);
    }
}

impl<L: Language> SyntaxToken<L> {
    pub(crate) fn green(&self) -> &GreenToken {
        &self.green
    }
    pub fn new_detached<Leading, Trailing>(
        kind: L::Kind,
        text: &str,
        leading: Leading,
        trailing: Trailing,
    ) -> Self
    where
        Leading: IntoIterator<Item = TriviaPiece>,
        Trailing: IntoIterator<Item = TriviaPiece>,
    {
        Self {
            green: GreenToken::new(
                kind.to_raw(),
                text,
                leading.into_iter().collect(),
                trailing.into_iter().collect(),
            ),
            parent: None,
            offset: TextSize::from(0),
        }
    }
    pub fn kind(&self) -> L::Kind {
        L::Kind::from_raw(self.green.0.kind)
    }
    pub fn text_range(&self) -> TextRange {
        TextRange::at(self.offset, self.green.text_len())
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        self.green.trimmed() + self.offset
    }
    pub fn index(&self) -> usize {
        self.parent.as_ref().map_or(0, |(_, i)| *i)
    }
    /// Text with trivia
    pub fn text(&self) -> &str {
        self.green.text()
    }
    pub fn token_text(&self) -> TokenText {
        TokenText::new(self.green.clone(), TextRange::up_to(self.green.text_len()))
    }
    pub fn text_trimmed(&self) -> &str {
        &self.green.text()[self.green.trimmed()]
    }
    pub fn token_text_trimmed(&self) -> TokenText {
        TokenText::new(self.green.clone(), self.green.trimmed())
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.parent.as_ref().map(|(p, _)| p.clone())
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let (parent, index) = self.parent.as_ref()?;
        (index + 1..parent.slot_count()).find_map(|i| parent.element_in_slot(i))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        let (parent, index) = self.parent.as_ref()?;
        (0..*index).rev().find_map(|i| parent.element_in_slot(i))
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        // The first token after this one: first of the following siblings, then of the
        // following siblings of each ancestor
        let mut sibling = self.next_sibling_or_token();
        let mut up = self.parent();
        loop {
            match sibling {
                Some(SyntaxElement::Token(token)) => return Some(token),
                Some(SyntaxElement::Node(node)) => {
                    if let Some(token) = node.first_token() {
                        return Some(token);
                    }
                    sibling = node.next_sibling_or_token();
                }
                None => {
                    let node = up?;
                    sibling = node.next_sibling_or_token();
                    up = node.parent();
                }
            }
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        let mut sibling = self.prev_sibling_or_token();
        let mut up = self.parent();
        loop {
            match sibling {
                Some(SyntaxElement::Token(token)) => return Some(token),
                Some(SyntaxElement::Node(node)) => {
                    if let Some(token) = node.last_token() {
                        return Some(token);
                    }
                    sibling = node.prev_sibling_or_token();
                }
                None => {
                    let node = up?;
                    sibling = node.prev_sibling_or_token();
                    up = node.parent();
                }
            }
        }
    }
    pub fn leading_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia::new(self.clone(), true)
    }
    pub fn trailing_trivia(&self) -> SyntaxTrivia<L> {
        SyntaxTrivia::new(self.clone(), false)
    }
    pub fn has_leading_comments(&self) -> bool {
        self.green.0.leading.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_trailing_comments(&self) -> bool {
        self.green.0.trailing.iter().any(|p| p.kind.is_comment())
    }
    pub fn has_leading_non_whitespace_trivia(&self) -> bool {
        self.green.0.leading.iter().any(|p| p.kind.is_comment() || p.kind.is_skipped())
    }
    pub fn has_leading_newline(&self) -> bool {
        self.green.0.leading.iter().any(|p| p.kind.is_newline())
    }
}

impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.text())
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "{:?}@{:?} {:?} {:?} {:?}",
            self.kind(),
            self.text_range(),
            self.text_trimmed(),
            self.leading_trivia(),
            self.trailing_trivia()
        )
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum SyntaxElement<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
}
pub type NodeOrToken<L> = SyntaxElement<L>;

impl<L: Language> SyntaxElement<L> {
    pub fn kind(&self) -> L::Kind {
        match self {
            SyntaxElement::Node(n) => n.kind(),
            SyntaxElement::Token(t) => t.kind(),
        }
    }
    pub fn text_range(&self) -> TextRange {
        match self {
            SyntaxElement::Node(n) => n.text_range(),
            SyntaxElement::Token(t) => t.text_range(),
        }
    }
    pub fn text_trimmed_range(&self) -> TextRange {
        match self {
            SyntaxElement::Node(n) => n.text_trimmed_range(),
            SyntaxElement::Token(t) => t.text_trimmed_range(),
        }
    }
    pub fn leading_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            SyntaxElement::Node(n) => n.first_leading_trivia(),
            SyntaxElement::Token(t) => Some(t.leading_trivia()),
        }
    }
    pub fn trailing_trivia(&self) -> Option<SyntaxTrivia<L>> {
        match self {
            SyntaxElement::Node(n) => n.last_trailing_trivia(),
            SyntaxElement::Token(t) => Some(t.trailing_trivia()),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxElement::Node(n) => n.parent(),
            SyntaxElement::Token(t) => t.parent(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            SyntaxElement::Node(n) => n.index(),
            SyntaxElement::Token(t) => t.index(),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxElement::Node(n) => n.next_sibling_or_token(),
            SyntaxElement::Token(t) => t.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxElement::Node(n) => n.prev_sibling_or_token(),
            SyntaxElement::Token(t) => t.prev_sibling_or_token(),
        }
    }
    pub fn as_node(&self) -> Option<&SyntaxNode<L>> {
        match self {
            SyntaxElement::Node(n) => Some(n),
            SyntaxElement::Token(_) => None,
        }
    }
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxElement::Node(n) => Some(n),
            SyntaxElement::Token(_) => None,
        }
    }
    pub fn as_token(&self) -> Option<&SyntaxToken<L>> {
        match self {
            SyntaxElement::Node(_) => None,
            SyntaxElement::Token(t) => Some(t),
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxElement::Node(_) => None,
            SyntaxElement::Token(t) => Some(t),
        }
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(node: SyntaxNode<L>) -> Self {
        SyntaxElement::Node(node)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(token: SyntaxToken<L>) -> Self {
        SyntaxElement::Token(token)
    }
}
impl<L: Language> fmt::Debug for SyntaxElement<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            SyntaxElement::Node(n) => fmt::Debug::fmt(n, f),
            SyntaxElement::Token(t) => fmt::Debug::fmt(t, f),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum SyntaxSlot<L: Language> {
    Node(SyntaxNode<L>),
    Token(SyntaxToken<L>),
    Empty { index: u32 },
}
impl<L: Language> SyntaxSlot<L> {
    pub fn into_node(self) -> Option<SyntaxNode<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn into_token(self) -> Option<SyntaxToken<L>> {
        match self {
            SyntaxSlot::Token(t) => Some(t),
            _ => None,
        }
    }
    pub fn into_syntax_element(self) -> Option<SyntaxElement<L>> {
        match self {
            SyntaxSlot::Node(n) => Some(SyntaxElement::Node(n)),
            SyntaxSlot::Token(t) => Some(SyntaxElement::Token(t)),
            SyntaxSlot::Empty { .. } => None,
        }
    }
    pub fn kind(&self) -> Option<L::Kind> {
        match self {
            SyntaxSlot::Node(n) => Some(n.kind()),
            SyntaxSlot::Token(t) => Some(t.kind()),
            SyntaxSlot::Empty { .. } => None,
        }
    }
}

#[derive(Debug, Clone)]
pub struct SyntaxSlots<L: Language> {
    node: SyntaxNode<L>,
    front: usize,
    back: usize,
}
impl<L: Language> SyntaxSlots<L> {
    fn at(&self, index: usize) -> SyntaxSlot<L> {
        match self.node.element_in_slot(index) {
            Some(SyntaxElement::Node(n)) => SyntaxSlot::Node(n),
            Some(SyntaxElement::Token(t)) => SyntaxSlot::Token(t),
            None => SyntaxSlot::Empty { index: index as u32 },
        }
    }
}
impl<L: Language> Iterator for SyntaxSlots<L> {
    type Item = SyntaxSlot<L>;
    fn next(&mut self) -> Option<Self::Item> {
        (self.front < self.back).then(|| {
            self.front += 1;
            self.at(self.front - 1)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.back - self.front, Some(self.back - self.front))
    }
}
impl<L: Language> DoubleEndedIterator for SyntaxSlots<L> {
    fn next_back(&mut self) -> Option<Self::Item> {
        (self.front < self.back).then(|| {
            self.back -= 1;
            self.at(self.back)
        })
    }
}
impl<L: Language> ExactSizeIterator for SyntaxSlots<L> {}
impl<L: Language> FusedIterator for SyntaxSlots<L> {}

macro_rules! children {
    ($Name:ident, $Item:ident, $into:ident) => {
        #[derive(Debug, Clone)]
        pub struct $Name<L: Language> {
            slots: SyntaxSlots<L>,
        }
        impl<L: Language> Iterator for $Name<L> {
            type Item = $Item<L>;
            fn next(&mut self) -> Option<Self::Item> {
                self.slots.by_ref().find_map(SyntaxSlot::$into)
            }
        }
        impl<L: Language> DoubleEndedIterator for $Name<L> {
            fn next_back(&mut self) -> Option<Self::Item> {
                self.slots.by_ref().rev().find_map(SyntaxSlot::$into)
            }
        }
        impl<L: Language> FusedIterator for $Name<L> {}
    };
}
children!(SyntaxElementChildren, SyntaxElement, into_syntax_element);
children!(SyntaxNodeChildren, SyntaxNode, into_node);
impl<L: Language> Default for SyntaxElementChildren<L> {
    fn default() -> Self {
        let node = SyntaxNode::new_root_green(GreenNode::new(L::Kind::TOMBSTONE.to_raw(), []));
        node.children_with_tokens()
    }
}

#[derive(Debug, Clone)]
pub struct Preorder<L: Language> {
    start: SyntaxNode<L>,
    next: Option<WalkEvent<SyntaxNode<L>>>,
}
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        self.next = self.next.take().and_then(|next| match next {
            WalkEvent::Enter(first_child) => first_child.parent().map(WalkEvent::Leave),
            WalkEvent::Leave(parent) => Some(WalkEvent::Leave(parent)),
        });
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(node.parent()?),
                    }
                }
            })
        });
        next
    }
}

#[derive(Debug, Clone)]
pub struct PreorderWithTokens<L: Language> {
    start: SyntaxElement<L>,
    next: Option<WalkEvent<SyntaxElement<L>>>,
    direction: Direction,
}
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.next = self.next.take().and_then(|next| match next {
            WalkEvent::Enter(first) => {
                first.parent().map(|p| WalkEvent::Leave(SyntaxElement::Node(p)))
            }
            WalkEvent::Leave(parent) => Some(WalkEvent::Leave(parent)),
        });
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(element) => {
                    let child = match (element, self.direction) {
                        (SyntaxElement::Node(n), Direction::Next) => n.first_child_or_token(),
                        (SyntaxElement::Node(n), Direction::Prev) => n.last_child_or_token(),
                        (SyntaxElement::Token(_), _) => None,
                    };
                    match child {
                        Some(child) => WalkEvent::Enter(child),
                        None => WalkEvent::Leave(element.clone()),
                    }
                }
                WalkEvent::Leave(element) => {
                    if element == &self.start {
                        return None;
                    }
                    let sibling = match self.direction {
                        Direction::Next => element.next_sibling_or_token(),
                        Direction::Prev => element.prev_sibling_or_token(),
                    };
                    match sibling {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => WalkEvent::Leave(SyntaxElement::Node(element.parent()?)),
                    }
                }
            })
        });
        next
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SyntaxList<L: Language> {
    list: SyntaxNode<L>,
}
impl<L: Language> SyntaxList<L> {
    pub fn iter(&self) -> SyntaxSlots<L> {
        self.list.slots()
    }
    pub fn len(&self) -> usize {
        self.list.slot_count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn first(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<SyntaxSlot<L>> {
        self.iter().next_back()
    }
    pub fn node(&self) -> &SyntaxNode<L> {
        &self.list
    }
    pub fn into_node(self) -> SyntaxNode<L> {
        self.list
    }
}
