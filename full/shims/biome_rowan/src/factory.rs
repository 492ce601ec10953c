use std::marker::PhantomData;

use crate::green::{GreenElement, GreenNode, GreenToken};
use crate::kinds::*;
use crate::trivia::TriviaPiece;

/// A green node on its way into a tree
#[derive(Debug)]
pub struct RawSyntaxNode<K: SyntaxKind> {
    green: GreenNode,
    _p: PhantomData<K>,
}
impl<K: SyntaxKind> RawSyntaxNode<K> {
    pub fn new<I>(kind: K, slots: I) -> Self
    where
        I: IntoIterator<Item = Option<RawSyntaxElement<K>>>,
    {
        Self {
            green: GreenNode::new(kind.to_raw(), slots.into_iter().map(|s| s.map(|e| e.raw))),
            _p: PhantomData,
        }
    }
    pub(crate) fn into_green(self) -> GreenNode {
        self.green
    }
}

#[derive(Debug, Clone)]
pub struct RawSyntaxElement<K: SyntaxKind> {
    raw: GreenElement,
    _p: PhantomData<K>,
}
impl<K: SyntaxKind> RawSyntaxElement<K> {
    pub fn kind(&self) -> K {
        K::from_raw(self.raw.kind())
    }
    pub fn new_token(kind: K, text: &str, leading: Vec<TriviaPiece>, trailing: Vec<TriviaPiece>) -> Self {
        Self {
            raw: GreenElement::Token(GreenToken::new(kind.to_raw(), text, leading, trailing)),
            _p: PhantomData,
        }
    }
}
impl<K: SyntaxKind> From<RawSyntaxNode<K>> for RawSyntaxElement<K> {
    fn from(node: RawSyntaxNode<K>) -> Self {
        Self { raw: GreenElement::Node(node.green), _p: PhantomData }
    }
}

/// The children that were parsed for a node, in source order
#[derive(Debug)]
pub struct ParsedChildren<K: SyntaxKind> {
    raw: Vec<RawSyntaxElement<K>>,
}
impl<K: SyntaxKind> ParsedChildren<K> {
    pub fn new(raw: Vec<RawSyntaxElement<K>>) -> Self {
        Self { raw }
    }
    pub fn len(&self) -> usize {
        self.raw.len()
    }
    pub fn is_empty(&self) -> bool {
        self.raw.is_empty()
    }
}
impl<K: SyntaxKind> IntoIterator for ParsedChildren<K> {
    type Item = RawSyntaxElement<K>;
    type IntoIter = std::vec::IntoIter<RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.raw.into_iter()
    }
}
impl<'a, K: SyntaxKind> IntoIterator for &'a ParsedChildren<K> {
    type Item = &'a RawSyntaxElement<K>;
    type IntoIter = std::slice::Iter<'a, RawSyntaxElement<K>>;
    fn into_iter(self) -> Self::IntoIter {
        self.raw.iter()
    }
}

/// Records which of the `COUNT` slots of a node are filled, then distributes the children
#[derive(Debug)]
pub struct RawNodeSlots<const COUNT: usize> {
    present: [bool; COUNT],
    current: usize,
}
impl<const COUNT: usize> Default for RawNodeSlots<COUNT> {
    fn default() -> Self {
        Self { present: [false; COUNT], current: 0 }
    }
}
impl<const COUNT: usize> RawNodeSlots<COUNT> {
    pub fn next_slot(&mut self) {
        self.current += 1;
    }
    pub fn mark_present(&mut self) {
        self.present[self.current] = true;
    }
    pub fn into_node<K: SyntaxKind>(
        self,
        kind: K,
        children: ParsedChildren<K>,
    ) -> RawSyntaxNode<K> {
        assert_eq!(self.current, COUNT, "missing slots");
        let mut children = children.into_iter();
        RawSyntaxNode::new(
            kind,
            self.present.iter().map(|present| {
                present.then(|| children.next().expect("a child for each present slot"))
            }),
        )
    }
}

pub trait SyntaxFactory: std::fmt::Debug {
    type Kind: SyntaxKind;

    fn make_syntax(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
    ) -> RawSyntaxNode<Self::Kind>;

    fn make_node_list_syntax<F>(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
        can_cast: F,
    ) -> RawSyntaxNode<Self::Kind>
    where
        F: Fn(Self::Kind) -> bool,
    {
        let valid = (&children).into_iter().all(|child| can_cast(child.kind()));
        let kind = if valid { kind } else { kind.to_bogus() };
        RawSyntaxNode::new(kind, children.into_iter().map(Some))
    }

    fn make_separated_list_syntax<F>(
        kind: Self::Kind,
        children: ParsedChildren<Self::Kind>,
        can_cast: F,
        separator: Self::Kind,
        allow_trailing: bool,
    ) -> RawSyntaxNode<Self::Kind>
    where
        F: Fn(Self::Kind) -> bool,
    {
        let mut next_node = true;
        let mut missing_count = 0usize;
        let mut valid = true;
        for child in &children {
            let kind = child.kind();
            if next_node {
                if can_cast(kind) {
                    next_node = false;
                } else if kind == separator {
                    // a missing element
                    missing_count += 1;
                } else {
                    valid = false;
                    break;
                }
            } else if kind == separator {
                next_node = true;
            } else if can_cast(kind) {
                // a missing separator
                missing_count += 1;
            } else {
                valid = false;
                break;
            }
        }
        if next_node && !allow_trailing && !children.is_empty() {
            missing_count += 1;
        }

        if !valid {
            return RawSyntaxNode::new(kind.to_bogus(), children.into_iter().map(Some));
        }
        if missing_count == 0 {
            return RawSyntaxNode::new(kind, children.into_iter().map(Some));
        }

        let mut slots = Vec::with_capacity(children.len() + missing_count);
        let mut next_node = true;
        for child in children {
            if next_node {
                if child.kind() == separator {
                    slots.push(None);
                    slots.push(Some(child));
                } else {
                    slots.push(Some(child));
                    next_node = false;
                }
            } else if child.kind() == separator {
                slots.push(Some(child));
                next_node = true;
            } else {
                slots.push(None);
                slots.push(Some(child));
            }
        }
        if next_node && !allow_trailing {
            slots.push(None);
        }
        RawSyntaxNode::new(kind, slots)
    }
}
