//! The code under test, and the reading of its results.
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;

use air_r_syntax::{RSyntaxKind as K, RSyntaxNode, RSyntaxToken};
use biome_rowan::NodeOrToken;
use air_r_parser::Parse;
use workspace::format::FormattedSource;
use workspace::settings::FormatSettings;

pub fn options(toml: &str, src: &str) -> Result<air_r_formatter::context::RFormatOptions, String> {
    thread_local! {
        static CACHE: RefCell<HashMap<String, FormatSettings>> = RefCell::default();
    }
    CACHE.with(|cache| {
        let mut cache = cache.borrow_mut();
        if !cache.contains_key(toml) {
            let parsed = workspace::toml::parse_air_inline_toml(&format!("[format]\n{toml}")).map_err(|e| format!("configuration: {e:?}"))?;
            let settings = parsed.into_settings(Path::new("")).map_err(|e| format!("configuration: {e:?}"))?;
            cache.insert(toml.to_string(), settings.format);
        }
        Ok(cache[toml].to_format_options(src))
    })
}

/// The syntax tree, or nothing if the text has a syntax error
pub fn parse(src: &str) -> Option<Parse> {
    let parsed = air_r_parser::parse(src, air_r_parser::RParserOptions::default());
    if parsed.has_error() {
        return None;
    }
    Some(parsed)
}

/// Formats as the command line and the editor do, and gives the text that results
pub fn format_parsed(parse: &Parse, toml: &str, src: &str) -> Result<String, String> {
    match workspace::format::format_source_with_parse(src, parse, options(toml, src)?) {
        Ok(FormattedSource::Changed(text)) => Ok(text),
        Ok(FormattedSource::Unchanged) => Ok(src.to_string()),
        Err(e) => Err(format!("formatting fails: {e:?}")),
    }
}

/// Formatted text; nothing if `src` has a syntax error
pub fn format(src: &str, toml: &str) -> Option<Result<String, String>> {
    let parsed = parse(src)?;
    Some(match mc::guard(|| format_parsed(&parsed, toml, src)) {
        Ok(result) => result,
        Err(panic) => Err(format!("formatting panics: {panic}")),
    })
}

/// What a program means: its syntax tree without trivia and without parts that carry no meaning.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tree {
    Token(K, String),
    /// A string, by the value that it denotes
    Text(String),
    Node(K, Vec<Tree>),
}

impl Tree {
    pub fn show(&self, out: &mut String) {
        match self {
            Tree::Token(_, t) => out.push_str(t),
            Tree::Text(t) => out.push_str(&format!("{t:?}")),
            Tree::Node(k, children) => {
                out.push('(');
                out.push_str(format!("{k:?}").trim_start_matches("R_"));
                for c in children {
                    out.push(' ');
                    c.show(out);
                }
                out.push(')');
            }
        }
    }
}

pub fn meaning(node: &RSyntaxNode) -> Tree {
    if node.kind() == K::R_STRING_VALUE {
        return Tree::Text(string_value(&node.text_trimmed().to_string()));
    }
    let mut children = Vec::new();
    for child in node.children_with_tokens() {
        match child {
            NodeOrToken::Node(n) => children.push(meaning(&n)),
            NodeOrToken::Token(t) => {
                // Separators of statements mean nothing beyond separating; the byte order mark nothing
                if matches!(t.kind(), K::SEMICOLON | K::EOF | K::UNICODE_BOM) {
                    continue;
                }
                let text = t.text_trimmed().to_string();
                children.push(Tree::Token(t.kind(), text));
            }
        }
    }
    // Assignments in a row: R groups them differently than the parser where `=` and `<-` are
    // mixed, so they are kept as a row
    if node.kind() == K::R_BINARY_EXPRESSION && is_assignment(&children[1]) {
        let mut row = Vec::new();
        for child in children {
            match child {
                Tree::Node(K::R_EXPRESSION_LIST, inner) if inner.get(1).is_some_and(is_assignment) => row.extend(inner),
                other => row.push(other),
            }
        }
        return Tree::Node(K::R_EXPRESSION_LIST, row);
    }
    Tree::Node(node.kind(), children)
}

fn is_assignment(t: &Tree) -> bool {
    matches!(t, Tree::Token(K::ASSIGN | K::EQUAL | K::SUPER_ASSIGN | K::WALRUS, _))
}

/// Is there an assignment whose value is an assignment with another operator?
pub fn mixed_assignments(node: &RSyntaxNode) -> bool {
    let operator = |n: &RSyntaxNode| match n.kind() {
        K::R_BINARY_EXPRESSION => n.children_with_tokens().find_map(|c| c.into_token()).map(|t| t.kind()),
        _ => None,
    };
    let assigns = |k: Option<K>| matches!(k, Some(K::ASSIGN | K::EQUAL | K::SUPER_ASSIGN | K::WALRUS));
    node.descendants().any(|n| {
        let (this, parent) = (operator(&n), n.parent().and_then(|p| operator(&p)));
        assigns(this) && assigns(parent) && this != parent
    })
}

/// The value of an R string literal, with escapes resolved as R does
pub fn string_value(literal: &str) -> String {
    let first = literal.chars().next().unwrap_or(' ');
    let normal = |s: &str| s.replace("\r\n", "\n");
    if first == 'r' || first == 'R' {
        // r"---( ... )---"
        let quote = literal.as_bytes()[1] as char;
        let inner = &literal[2..];
        let dashes = inner.chars().take_while(|c| *c == '-').count();
        let open = inner.as_bytes()[dashes] as char;
        let _ = (quote, open);
        let end = inner.len() - 1 - dashes - 1;
        return normal(&inner[dashes + 1..end]);
    }
    let inner = normal(&literal[1..literal.len() - 1]);
    let mut out = String::new();
    let mut chars = inner.chars().peekable();
    while let Some(c) = chars.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match chars.next() {
            // These two denote the same as without the backslash
            Some(q @ ('"' | '\'' | '`' | '\\' | ' ')) => match q {
                '\\' => out.push_str("\u{1}\\"),
                q => out.push(q),
            },
            // others are kept as they are spelled
            Some(other) => {
                out.push('\u{1}');
                out.push(other);
            }
            None => out.push('\u{1}'),
        }
    }
    out
}

/// Is there an extraction or a namespace without its right-hand side?
pub fn incomplete(node: &RSyntaxNode) -> bool {
    node.descendants()
        .any(|n| matches!(n.kind(), K::R_EXTRACT_EXPRESSION | K::R_NAMESPACE_EXPRESSION) && n.children_with_tokens().count() < 3)
}

pub fn tokens(node: &RSyntaxNode) -> Vec<RSyntaxToken> {
    node.descendants_tokens(biome_rowan::Direction::Next).collect()
}

/// Where a body stands that may get braces
fn body_position(kind: K, slot: usize, count: usize) -> bool {
    match kind {
        K::R_FUNCTION_DEFINITION | K::R_FOR_STATEMENT | K::R_WHILE_STATEMENT | K::R_REPEAT_STATEMENT => slot + 1 == count,
        // if ( condition ) consequence else_clause?
        K::R_IF_STATEMENT => slot == 4,
        K::R_ELSE_CLAUSE => slot == 1,
        _ => false,
    }
}

/// `{ x }` gives x
fn unbraced(tree: &Tree) -> Option<&Tree> {
    let Tree::Node(K::R_BRACED_EXPRESSIONS, children) = tree else { return None };
    let [_, Tree::Node(K::R_EXPRESSION_LIST, list), _] = children.as_slice() else { return None };
    match list.as_slice() {
        [one] => Some(one),
        _ => None,
    }
}

/// Which exchanges of assignment operators are allowed
#[derive(Clone, Copy, PartialEq)]
pub enum Assign {
    Preserve,
    Arrow,
    Equal,
}

/// Does `after` mean the same as `before`? Only braces added around bodies and exchanged
/// assignments may differ.
pub fn same_meaning(before: &Tree, after: &Tree, assign: Assign) -> Result<(), String> {
    let differ = || {
        let (mut b, mut a) = (String::new(), String::new());
        before.show(&mut b);
        after.show(&mut a);
        Err(format!("{b} became {a}"))
    };
    match (before, after) {
        (Tree::Text(x), Tree::Text(y)) if x == y => Ok(()),
        (Tree::Token(k, x), Tree::Token(l, y)) if k == l && x == y => Ok(()),
        (Tree::Node(k, x), Tree::Node(l, y)) if k == l && x.len() == y.len() => {
            for (i, (b, a)) in x.iter().zip(y).enumerate() {
                if *k == K::R_EXPRESSION_LIST && i % 2 == 1 {
                    if let (Tree::Token(b, _), Tree::Token(a, _)) = (b, a) {
                        match assign {
                            Assign::Arrow if *b == K::EQUAL && *a == K::ASSIGN => continue,
                            Assign::Equal if *b == K::ASSIGN && *a == K::EQUAL => continue,
                            _ => {}
                        }
                    }
                }
                if body_position(*k, i, x.len()) {
                    let is_braced = |t: &Tree| matches!(t, Tree::Node(K::R_BRACED_EXPRESSIONS, _));
                    if !is_braced(b) && is_braced(a) {
                        let Some(inner) = unbraced(a) else { return differ() };
                        same_meaning(b, inner, assign)?;
                        continue;
                    }
                }
                same_meaning(b, a, assign)?;
            }
            Ok(())
        }
        _ => differ(),
    }
}
