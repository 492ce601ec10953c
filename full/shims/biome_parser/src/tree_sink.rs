use std::marker::PhantomData;

use crate::ParseDiagnostic;
use crate::token_source::Trivia;
use biome_rowan::{
    Language, NodeCache, ParsedChildren, RawSyntaxElement, SyntaxFactory, SyntaxKind, SyntaxNode,
    TextRange, TextSize, TriviaPiece,
};

pub trait TreeSink {
    type Kind: SyntaxKind;
    fn token(&mut self, kind: Self::Kind, end: TextSize);
    fn start_node(&mut self, kind: Self::Kind);
    fn finish_node(&mut self);
    fn errors(&mut self, errors: Vec<ParseDiagnostic>);
}

/// Builds the tree, attaching trivia to tokens: before a token, all pending trivia that is not
/// trailing, after it all that is. What is left at the end leads the `EOF` token.
pub struct LosslessTreeSink<'a, L, F>
where
    L: Language,
    F: SyntaxFactory<Kind = L::Kind>,
{
    text: &'a str,
    trivia: &'a [Trivia],
    text_pos: TextSize,
    trivia_pos: usize,
    parents: Vec<(L::Kind, Vec<RawSyntaxElement<L::Kind>>)>,
    root: Option<SyntaxNode<L>>,
    errors: Vec<ParseDiagnostic>,
    needs_eof: bool,
    trivia_pieces: Vec<TriviaPiece>,
    _p: PhantomData<(F, &'a mut NodeCache)>,
}

impl<'a, L, F> LosslessTreeSink<'a, L, F>
where
    L: Language,
    F: SyntaxFactory<Kind = L::Kind>,
{
    pub fn new(text: &'a str, trivia: &'a [Trivia]) -> Self {
        Self {
            text,
            trivia,
            text_pos: 0.into(),
            trivia_pos: 0,
            parents: Vec::new(),
            root: None,
            errors: Vec::new(),
            needs_eof: true,
            trivia_pieces: Vec::new(),
            _p: PhantomData,
        }
    }
    pub fn with_cache(text: &'a str, trivia: &'a [Trivia], _cache: &'a mut NodeCache) -> Self {
        Self::new(text, trivia)
    }
    pub fn finish(self) -> (SyntaxNode<L>, Vec<ParseDiagnostic>) {
        (self.root.expect("a finished root node"), self.errors)
    }

    fn do_token(&mut self, kind: L::Kind, token_end: TextSize) {
        if kind == L::Kind::EOF {
            self.needs_eof = false;
        }
        let start = self.text_pos;
        let leading = self.eat_trivia(false);
        // The token itself
        self.text_pos = token_end;
        let trailing = self.eat_trivia(true);
        let text = &self.text[TextRange::new(start, self.text_pos)];
        let token = RawSyntaxElement::new_token(kind, text, leading, trailing);
        let (_, children) = self.parents.last_mut().expect("a token outside of any node");
        children.push(token);
    }

    fn eat_trivia(&mut self, trailing: bool) -> Vec<TriviaPiece> {
        for trivia in &self.trivia[self.trivia_pos..] {
            if trivia.trailing() != trailing || self.text_pos != trivia.offset() {
                break;
            }
            self.trivia_pieces.push(TriviaPiece::new(trivia.kind(), trivia.len()));
            self.text_pos += trivia.len();
            self.trivia_pos += 1;
        }
        std::mem::take(&mut self.trivia_pieces)
    }
}

impl<L, F> TreeSink for LosslessTreeSink<'_, L, F>
where
    L: Language,
    F: SyntaxFactory<Kind = L::Kind>,
{
    type Kind = L::Kind;

    fn token(&mut self, kind: L::Kind, end: TextSize) {
        self.do_token(kind, end);
    }
    fn start_node(&mut self, kind: L::Kind) {
        self.parents.push((kind, Vec::new()));
    }
    fn finish_node(&mut self) {
        if self.parents.len() == 1 && self.needs_eof {
            self.do_token(L::Kind::EOF, TextSize::of(self.text));
        }
        let (kind, children) = self.parents.pop().expect("a started node");
        let node = F::make_syntax(kind, ParsedChildren::new(children));
        match self.parents.last_mut() {
            Some((_, siblings)) => siblings.push(node.into()),
            None => self.root = Some(SyntaxNode::new_root(node)),
        }
    }
    fn errors(&mut self, errors: Vec<ParseDiagnostic>) {
        self.errors = errors;
    }
}
