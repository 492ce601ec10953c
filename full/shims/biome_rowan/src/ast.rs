use std::fmt;
use std::iter::FusedIterator;
use std::marker::PhantomData;

use crate::kinds::*;
use crate::node::*;
use crate::trivia::SyntaxTrivia;
use biome_text_size::TextRange;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SyntaxError {
    MissingRequiredChild,
    UnexpectedBogusNode,
    UnexpectedMetavariable,
}
pub type SyntaxResult<T> = Result<T, SyntaxError>;

impl fmt::Display for SyntaxError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SyntaxError::MissingRequiredChild => "missing required child",
            SyntaxError::UnexpectedBogusNode => "unexpected bogus node",
            SyntaxError::UnexpectedMetavariable => "unexpected metavariable node",
        })
    }
}
impl std::error::Error for SyntaxError {}

pub trait AstNode: Clone {
    type Language: Language;
    const KIND_SET: SyntaxKindSet<Self::Language>;

    fn can_cast(kind: <Self::Language as Language>::Kind) -> bool;
    fn cast(syntax: SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized;
    fn cast_ref(syntax: &SyntaxNode<Self::Language>) -> Option<Self>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) { Self::cast(syntax.clone()) } else { None }
    }
    fn try_cast(syntax: SyntaxNode<Self::Language>) -> Result<Self, SyntaxNode<Self::Language>>
    where
        Self: Sized,
    {
        if Self::can_cast(syntax.kind()) {
            Ok(Self::unwrap_cast(syntax))
        } else {
            Err(syntax)
        }
    }
    #[track_caller]
    fn unwrap_cast(syntax: SyntaxNode<Self::Language>) -> Self
    where
        Self: Sized,
    {
        let kind = syntax.kind();
        Self::cast(syntax).unwrap_or_else(|| {
            panic!("Tried to cast node with kind {kind:?} as `{}`", std::any::type_name::<Self>())
        })
    }
    fn syntax(&self) -> &SyntaxNode<Self::Language>;
    fn into_syntax(self) -> SyntaxNode<Self::Language>
    where
        Self: Sized;
    fn text(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn to_trimmed_string(&self) -> String {
        self.syntax().text_trimmed().to_string()
    }
    fn range(&self) -> TextRange {
        self.syntax().text_trimmed_range()
    }
    fn parent<T: AstNode<Language = Self::Language>>(&self) -> Option<T> {
        self.syntax().parent().and_then(T::cast)
    }
    fn first_leading_trivia(&self) -> SyntaxResult<SyntaxTrivia<Self::Language>> {
        self.syntax().first_leading_trivia().ok_or(SyntaxError::MissingRequiredChild)
    }
    fn last_trailing_trivia(&self) -> SyntaxResult<SyntaxTrivia<Self::Language>> {
        self.syntax().last_trailing_trivia().ok_or(SyntaxError::MissingRequiredChild)
    }
}

/// Marker used by the generated `*_slot_map` functions
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct AstNodeSlotMap<L: Language>(PhantomData<L>);

pub trait AstNodeList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;

    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;

    fn iter(&self) -> AstNodeListIterator<Self::Language, Self::Node> {
        AstNodeListIterator { inner: self.syntax_list().iter(), ph: PhantomData }
    }
    fn len(&self) -> usize {
        self.syntax_list().len()
    }
    fn first(&self) -> Option<Self::Node> {
        self.iter().next()
    }
    fn last(&self) -> Option<Self::Node> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

#[derive(Debug, Clone)]
pub struct AstNodeListIterator<L: Language, N> {
    inner: SyntaxSlots<L>,
    ph: PhantomData<N>,
}
impl<L: Language, N: AstNode<Language = L>> AstNodeListIterator<L, N> {
    fn slot_to_node(slot: SyntaxSlot<L>) -> N {
        match slot {
            SyntaxSlot::Node(node) => N::unwrap_cast(node),
            SyntaxSlot::Token(_) => panic!("expected a node in a node list"),
            SyntaxSlot::Empty { .. } => panic!("a node list can't have an empty slot"),
        }
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstNodeListIterator<L, N> {
    type Item = N;
    fn next(&mut self) -> Option<N> {
        self.inner.next().map(Self::slot_to_node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator for AstNodeListIterator<L, N> {
    fn next_back(&mut self) -> Option<N> {
        self.inner.next_back().map(Self::slot_to_node)
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator for AstNodeListIterator<L, N> {}
impl<L: Language, N: AstNode<Language = L>> FusedIterator for AstNodeListIterator<L, N> {}

#[derive(Clone)]
pub struct AstSeparatedElement<L: Language, N> {
    node: SyntaxResult<N>,
    trailing_separator: SyntaxResult<Option<SyntaxToken<L>>>,
}
impl<L: Language, N: AstNode<Language = L>> AstSeparatedElement<L, N> {
    pub fn node(&self) -> SyntaxResult<&N> {
        match &self.node {
            Ok(node) => Ok(node),
            Err(err) => Err(*err),
        }
    }
    pub fn into_node(self) -> SyntaxResult<N> {
        self.node
    }
    pub fn trailing_separator(&self) -> SyntaxResult<Option<&SyntaxToken<L>>> {
        match &self.trailing_separator {
            Ok(sep) => Ok(sep.as_ref()),
            Err(err) => Err(*err),
        }
    }
    pub fn into_trailing_separator(self) -> SyntaxResult<Option<SyntaxToken<L>>> {
        self.trailing_separator
    }
}
impl<L: Language, N: fmt::Debug> fmt::Debug for AstSeparatedElement<L, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.node {
            Ok(node) => fmt::Debug::fmt(node, f)?,
            Err(_) => f.write_str("missing element")?,
        }
        match &self.trailing_separator {
            Ok(Some(separator)) => {
                f.write_str(",\n")?;
                fmt::Debug::fmt(separator, f)
            }
            Err(_) => f.write_str(",\nmissing separator"),
            Ok(None) => Ok(()),
        }
    }
}

pub trait AstSeparatedList {
    type Language: Language;
    type Node: AstNode<Language = Self::Language>;

    fn syntax_list(&self) -> &SyntaxList<Self::Language>;
    fn into_syntax_list(self) -> SyntaxList<Self::Language>;

    fn iter(&self) -> AstSeparatedListNodesIterator<Self::Language, Self::Node> {
        AstSeparatedListNodesIterator { inner: self.elements() }
    }
    fn elements(&self) -> AstSeparatedListElementsIterator<Self::Language, Self::Node> {
        AstSeparatedListElementsIterator { slots: self.syntax_list().iter(), nodes: PhantomData }
    }
    fn separators(&self) -> impl Iterator<Item = SyntaxResult<SyntaxToken<Self::Language>>> {
        self.elements().filter_map(|element| match element.into_trailing_separator() {
            Ok(Some(token)) => Some(Ok(token)),
            Ok(None) => None,
            Err(err) => Some(Err(err)),
        })
    }
    fn first(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next()
    }
    fn last(&self) -> Option<SyntaxResult<Self::Node>> {
        self.iter().next_back()
    }
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn len(&self) -> usize {
        self.syntax_list().len().div_ceil(2)
    }
    fn trailing_separator(&self) -> Option<SyntaxToken<Self::Language>> {
        match self.syntax_list().last()? {
            SyntaxSlot::Token(token) => Some(token),
            _ => None,
        }
    }
}

#[derive(Debug, Clone)]
pub struct AstSeparatedListElementsIterator<L: Language, N> {
    slots: SyntaxSlots<L>,
    nodes: PhantomData<N>,
}
impl<L: Language, N: AstNode<Language = L>> AstSeparatedListElementsIterator<L, N> {
    fn to_node(slot: SyntaxSlot<L>) -> SyntaxResult<N> {
        match slot {
            SyntaxSlot::Token(token) => panic!("malformed separated list, node expected: {token:?}"),
            SyntaxSlot::Empty { .. } => Err(SyntaxError::MissingRequiredChild),
            SyntaxSlot::Node(node) => Ok(N::unwrap_cast(node)),
        }
    }
    fn to_separator(slot: Option<SyntaxSlot<L>>) -> SyntaxResult<Option<SyntaxToken<L>>> {
        match slot {
            Some(SyntaxSlot::Token(token)) => Ok(Some(token)),
            Some(SyntaxSlot::Empty { .. }) => Err(SyntaxError::MissingRequiredChild),
            Some(SyntaxSlot::Node(node)) => {
                panic!("malformed separated list, separator expected: {node:?}")
            }
            None => Ok(None),
        }
    }
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListElementsIterator<L, N> {
    type Item = AstSeparatedElement<L, N>;
    fn next(&mut self) -> Option<Self::Item> {
        let node = Self::to_node(self.slots.next()?);
        let trailing_separator = Self::to_separator(self.slots.next());
        Some(AstSeparatedElement { node, trailing_separator })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.slots.len().div_ceil(2);
        (n, Some(n))
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator
    for AstSeparatedListElementsIterator<L, N>
{
    fn next_back(&mut self) -> Option<Self::Item> {
        // An odd number of slots ends with a node that has no separator
        let separator = if self.slots.len() % 2 == 0 { Some(self.slots.next_back()?) } else { None };
        let node = Self::to_node(self.slots.next_back()?);
        Some(AstSeparatedElement { node, trailing_separator: Self::to_separator(separator) })
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator
    for AstSeparatedListElementsIterator<L, N>
{
}
impl<L: Language, N: AstNode<Language = L>> FusedIterator
    for AstSeparatedListElementsIterator<L, N>
{
}

#[derive(Debug, Clone)]
pub struct AstSeparatedListNodesIterator<L: Language, N> {
    inner: AstSeparatedListElementsIterator<L, N>,
}
impl<L: Language, N: AstNode<Language = L>> Iterator for AstSeparatedListNodesIterator<L, N> {
    type Item = SyntaxResult<N>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next().map(|e| e.node)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<L: Language, N: AstNode<Language = L>> DoubleEndedIterator
    for AstSeparatedListNodesIterator<L, N>
{
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.next_back().map(|e| e.node)
    }
}
impl<L: Language, N: AstNode<Language = L>> ExactSizeIterator
    for AstSeparatedListNodesIterator<L, N>
{
}
impl<L: Language, N: AstNode<Language = L>> FusedIterator
    for AstSeparatedListNodesIterator<L, N>
{
}

pub mod support {
    use super::*;

    pub fn node<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> Option<N> {
        match parent.slots().nth(slot_index)? {
            SyntaxSlot::Empty { .. } => None,
            SyntaxSlot::Node(node) => N::cast(node),
            SyntaxSlot::Token(token) => panic!("expected a node in slot {slot_index}: {token:?}"),
        }
    }
    pub fn required_node<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> SyntaxResult<N> {
        node(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }
    pub fn elements<L: Language>(parent: &SyntaxNode<L>) -> SyntaxElementChildren<L> {
        parent.children_with_tokens()
    }
    #[track_caller]
    pub fn list<L: Language, N: AstNode<Language = L>>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> N {
        required_node(parent, slot_index).expect("a list is always present")
    }
    pub fn token<L: Language>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> Option<SyntaxToken<L>> {
        match parent.slots().nth(slot_index)? {
            SyntaxSlot::Empty { .. } => None,
            SyntaxSlot::Token(token) => Some(token),
            SyntaxSlot::Node(node) => panic!("expected a token in slot {slot_index}: {node:?}"),
        }
    }
    pub fn required_token<L: Language>(
        parent: &SyntaxNode<L>,
        slot_index: usize,
    ) -> SyntaxResult<SyntaxToken<L>> {
        token(parent, slot_index).ok_or(SyntaxError::MissingRequiredChild)
    }

    pub struct DebugSyntaxResult<N>(pub SyntaxResult<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugSyntaxResult<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Ok(node) => fmt::Debug::fmt(node, f),
                Err(SyntaxError::MissingRequiredChild) => f.write_str("missing (required)"),
                Err(err) => fmt::Debug::fmt(err, f),
            }
        }
    }
    pub struct DebugOptionalElement<N>(pub Option<N>);
    impl<N: fmt::Debug> fmt::Debug for DebugOptionalElement<N> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match &self.0 {
                Some(node) => fmt::Debug::fmt(node, f),
                None => f.write_str("missing (optional)"),
            }
        }
    }
}
