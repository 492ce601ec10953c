//! Clean-room stand-in for `tree-sitter`: read-only concrete syntax trees and cursors over them.
//! A "language" is a plain function from text to tree.

/// Where a tree comes from
#[derive(Clone, Copy)]
pub struct LanguageFn(pub fn(&str) -> Tree);

#[derive(Clone, Copy)]
pub struct Language(fn(&str) -> Tree);
impl From<LanguageFn> for Language {
    fn from(f: LanguageFn) -> Self {
        Language(f.0)
    }
}

#[derive(Debug)]
pub struct LanguageError(());
impl std::fmt::Display for LanguageError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("language error")
    }
}
impl std::error::Error for LanguageError {}

#[derive(Default)]
pub struct Parser {
    language: Option<Language>,
}
impl Parser {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_language(&mut self, language: &Language) -> Result<(), LanguageError> {
        self.language = Some(*language);
        Ok(())
    }
    pub fn parse(&mut self, text: impl AsRef<[u8]>, _old: Option<&Tree>) -> Option<Tree> {
        let text = std::str::from_utf8(text.as_ref()).ok()?;
        let language = self.language?;
        let mut tree = language.0(text);
        tree.lines = text.match_indices('\n').map(|(at, _)| at + 1).collect();
        Some(tree)
    }
}

#[derive(Debug, Clone)]
pub struct RawNode {
    pub kind: &'static str,
    pub field: Option<&'static str>,
    pub start: usize,
    pub end: usize,
    pub children: Vec<usize>,
    pub parent: Option<usize>,
}

/// Nodes in an arena
#[derive(Debug, Clone)]
pub struct Tree {
    pub nodes: Vec<RawNode>,
    pub root: usize,
    pub error: bool,
    /// Where every line after the first starts
    pub lines: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point {
    pub row: usize,
    pub column: usize,
}

impl Tree {
    pub fn root_node(&self) -> Node<'_> {
        Node { tree: self, id: self.root }
    }
}

#[derive(Clone, Copy)]
pub struct Node<'tree> {
    tree: &'tree Tree,
    id: usize,
}
impl PartialEq for Node<'_> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.tree, other.tree) && self.id == other.id
    }
}
impl Eq for Node<'_> {}
impl std::fmt::Debug for Node<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{{Node {} {}..{}}}", self.kind(), self.start_byte(), self.end_byte())
    }
}
impl<'tree> Node<'tree> {
    fn raw(&self) -> &'tree RawNode {
        &self.tree.nodes[self.id]
    }
    fn at(&self, id: usize) -> Node<'tree> {
        Node { tree: self.tree, id }
    }
    pub fn kind(&self) -> &'static str {
        self.raw().kind
    }
    pub fn start_byte(&self) -> usize {
        self.raw().start
    }
    pub fn end_byte(&self) -> usize {
        self.raw().end
    }
    pub fn byte_range(&self) -> std::ops::Range<usize> {
        self.start_byte()..self.end_byte()
    }
    fn point(&self, offset: usize) -> Point {
        let row = self.tree.lines.partition_point(|start| *start <= offset);
        let start = if row == 0 { 0 } else { self.tree.lines[row - 1] };
        Point { row, column: offset - start }
    }
    pub fn start_position(&self) -> Point {
        self.point(self.start_byte())
    }
    pub fn end_position(&self) -> Point {
        self.point(self.end_byte())
    }
    /// Errors are not localised: the whole tree has one or none does
    pub fn has_error(&self) -> bool {
        self.tree.error
    }
    pub fn is_error(&self) -> bool {
        self.kind() == "ERROR"
    }
    pub fn is_missing(&self) -> bool {
        false
    }
    pub fn is_extra(&self) -> bool {
        self.kind() == "comment"
    }
    pub fn parent(&self) -> Option<Node<'tree>> {
        self.raw().parent.map(|id| self.at(id))
    }
    pub fn child_count(&self) -> usize {
        self.raw().children.len()
    }
    pub fn child(&self, i: usize) -> Option<Node<'tree>> {
        self.raw().children.get(i).map(|id| self.at(*id))
    }
    fn sibling(&self, next: bool) -> Option<Node<'tree>> {
        let parent = self.parent()?;
        let at = parent.raw().children.iter().position(|id| *id == self.id)?;
        parent.child(if next { at + 1 } else { at.checked_sub(1)? })
    }
    pub fn next_sibling(&self) -> Option<Node<'tree>> {
        self.sibling(true)
    }
    pub fn prev_sibling(&self) -> Option<Node<'tree>> {
        self.sibling(false)
    }
    pub fn walk(&self) -> TreeCursor<'tree> {
        TreeCursor { node: *self, path: Vec::new() }
    }
}

/// The cursor cannot leave the node it was made from
#[derive(Clone)]
pub struct TreeCursor<'tree> {
    node: Node<'tree>,
    /// Index of each step down from the start
    path: Vec<usize>,
}
impl<'tree> TreeCursor<'tree> {
    pub fn node(&self) -> Node<'tree> {
        self.node
    }
    pub fn field_name(&self) -> Option<&'static str> {
        if self.path.is_empty() { None } else { self.node.raw().field }
    }
    pub fn depth(&self) -> u32 {
        self.path.len() as u32
    }
    pub fn goto_first_child(&mut self) -> bool {
        match self.node.child(0) {
            Some(child) => {
                self.node = child;
                self.path.push(0);
                true
            }
            None => false,
        }
    }
    pub fn goto_next_sibling(&mut self) -> bool {
        let Some(at) = self.path.last_mut() else { return false };
        let parent = self.node.parent().expect("a parent below the start");
        match parent.child(*at + 1) {
            Some(sibling) => {
                *at += 1;
                self.node = sibling;
                true
            }
            None => false,
        }
    }
    pub fn goto_parent(&mut self) -> bool {
        match self.path.pop() {
            Some(_) => {
                self.node = self.node.parent().expect("a parent below the start");
                true
            }
            None => false,
        }
    }
}
