//! P01, P02: the parser.
use air_r_parser::RParserOptions;
use air_r_syntax::{RSyntaxKind as K, RSyntaxNode, RSyntaxToken};
use biome_rowan::{NodeOrToken, TriviaPieceKind};
use mc::{Check, Ctx, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};

use crate::families;
use crate::r#gen::*;
use crate::oracle::{Part, parts};
use crate::r;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case(String);

pub struct Lossless;
pub struct Total;

/// What may stand between two tokens
const PIECES: &[&str] = &[" ", "\n", "# c", ";", "\r\n", "\t"];

/// A program with the text of some gaps given
fn with(p: &[Tok], gaps: &[(usize, &str)]) -> String {
    let mut out = String::new();
    for i in 0..=p.len() {
        match gaps.iter().find(|(g, _)| *g == i) {
            Some((_, text)) => out += text,
            None if i > 0 && i < p.len() => out += if p[i - 1].newline { "\n" } else { " " },
            None => {}
        }
        if i < p.len() {
            out += &p[i].text;
        }
    }
    out
}

fn gap_words(max: usize) -> Vec<String> {
    let mut out = vec![];
    mc::texts(PIECES, max, &mut |w| out.push(w.to_string()));
    out
}

/// The text of a program as brackets around what belongs together
#[derive(PartialEq, Eq, Debug)]
enum Shape {
    Leaf(String),
    Group(Vec<Shape>),
}

fn group(mut parts: Vec<Shape>) -> Option<Shape> {
    match parts.len() {
        0 => None,
        1 => parts.pop(),
        _ => Some(Shape::Group(parts)),
    }
}

fn expected_shape(node: tree_sitter::Node, text: &str) -> Option<Shape> {
    if node.kind() == "comment" || node.kind() == ";" {
        return None;
    }
    if node.kind() != "program" && node.child_count() == 0 || node.kind() == "string" || node.kind() == "integer" || node.kind() == "complex" {
        let text = &text[node.byte_range()];
        return (!text.is_empty()).then(|| Shape::Leaf(text.to_string()));
    }
    group((0..node.child_count()).filter_map(|i| expected_shape(node.child(i).unwrap(), text)).collect())
}

fn shapes(node: &RSyntaxNode, out: &mut Vec<Shape>) {
    for child in node.children_with_tokens() {
        match child {
            NodeOrToken::Token(token) => {
                let text = token.text_trimmed();
                if !text.is_empty() {
                    out.push(Shape::Leaf(text.to_string()));
                }
            }
            NodeOrToken::Node(n) => match n.kind() {
                K::R_STRING_VALUE | K::R_INTEGER_VALUE | K::R_COMPLEX_VALUE => out.push(Shape::Leaf(n.text_trimmed().to_string())),
                // What the grammar has no node for
                K::R_EXPRESSION_LIST | K::R_ARGUMENT_LIST | K::R_PARAMETER_LIST | K::R_ELSE_CLAUSE | K::R_ARGUMENT_NAME_CLAUSE | K::R_PARAMETER_DEFAULT => shapes(&n, out),
                _ => {
                    let mut inner = vec![];
                    shapes(&n, &mut inner);
                    out.extend(group(inner));
                }
            },
        }
    }
}

fn grammar(src: &str) -> tree_sitter::Tree {
    let mut parser = tree_sitter::Parser::new();
    parser.set_language(&tree_sitter_r::LANGUAGE.into()).unwrap();
    parser.parse(src, None).unwrap()
}

fn trivia_pieces(pieces: impl Iterator<Item = biome_rowan::SyntaxTriviaPiece<air_r_syntax::RLanguage>>, whole: &str, what: &str) -> Result<(Vec<String>, bool), mc::Failure> {
    let mut joined = String::new();
    let mut comments = vec![];
    let mut newline = false;
    for piece in pieces {
        let text = piece.text();
        let fits = match piece.kind() {
            TriviaPieceKind::Newline => {
                newline = true;
                matches!(text, "\n" | "\r\n" | "\r")
            }
            TriviaPieceKind::Whitespace => !text.is_empty() && text.chars().all(|c| c == ';' || c.is_whitespace() && c != '\n'),
            TriviaPieceKind::SingleLineComment => {
                comments.push(text.trim_end().to_string());
                text.starts_with('#') && !text.contains('\n')
            }
            _ => false,
        };
        ensure!(fits, "{what}: {text:?} is {:?}", piece.kind());
        joined += text;
    }
    ensure_eq!(joined.as_str(), whole, "{what}: pieces of trivia");
    Ok((comments, newline))
}

/// The tree says everything that the text says
fn lossless(src: &str, root: &RSyntaxNode) -> Verdict {
    ensure_eq!(root.text_with_trivia().to_string(), src, "text of the tree of {src:?}");
    let what = || format!("tree of {src:?}");
    let mut comments = vec![];
    let mut code = String::new();
    let mut end = 0;
    let mut first = true;
    let mut previous_trailing = String::new();
    let tokens: Vec<RSyntaxToken> = root.descendants_tokens(biome_rowan::Direction::Next).collect();
    for (i, token) in tokens.iter().enumerate() {
        let range = token.text_range();
        ensure!(usize::from(range.start()) == end, "{}: token {:?} starts at {:?}, not at {end}", what(), token.text(), range.start());
        end = usize::from(range.end());
        ensure_eq!(token.text(), &src[usize::from(range.start())..end], "{}: text of a token", what());
        let (leading, trailing) = (token.leading_trivia(), token.trailing_trivia());
        let joined = format!("{}{}{}", leading.text(), token.text_trimmed(), trailing.text());
        ensure_eq!(joined.as_str(), token.text(), "{}: parts of a token", what());
        let (c, _) = trivia_pieces(leading.pieces(), leading.text(), &what())?;
        comments.extend(c);
        let (c, newline) = trivia_pieces(trailing.pieces(), trailing.text(), &what())?;
        comments.extend(c);
        ensure!(!newline, "{}: the trailing trivia of {:?} has a line break", what(), token.text());
        ensure!(i + 1 == tokens.len() || !token.text_trimmed().is_empty(), "{}: empty token", what());
        // A comment belongs to the token in front of it on its line
        let on_this_line = leading.text().split(['\n', '\r']).next().unwrap();
        ensure!(first || !on_this_line.contains('#'), "{}: the comment {on_this_line:?} belongs to the token in front of it", what());
        if !first && leading.text().contains(['\n', '\r']) && i + 1 < tokens.len() {
            ensure!(on_this_line.is_empty(), "{}: {on_this_line:?} belongs to the token in front of it", what());
        }
        ensure!(!(previous_trailing.contains('#') && !leading.text().is_empty() && !leading.text().starts_with(['\n', '\r'])), "{}: trivia after a comment", what());
        previous_trailing = trailing.text().to_string();
        first = false;
        code += token.text_trimmed();
        code.push('\u{1}');
    }
    ensure!(end == src.len(), "{}: ends at {end}", what());
    let expected = crate::oracle::comments(src);
    ensure_eq!(comments, expected, "{}: comments", what());
    // What is neither blank nor comment is in the tokens
    let dense = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != '\u{1}' && *c != ';').collect::<String>();
    let solid: String = parts(src).into_iter().filter(|(_, p)| *p != Part::Comment).map(|(c, _)| c).collect();
    ensure_eq!(dense(&code), dense(&solid), "{}: text of the tokens", what());
    // What belongs together
    let tree = grammar(src);
    let mut actual = vec![];
    shapes(root, &mut actual);
    let actual = group(actual);
    let expected = expected_shape(tree.root_node(), src);
    ensure!(actual == expected, "tree of {src:?}: {actual:?}, but the grammar has {expected:?}");
    Ok(())
}

impl Check for Lossless {
    type Case = Case;
    fn id(&self) -> &'static str {
        "P01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all nestings of 105 constructs in each other with, in every gap, every sequence of up to {} of blank, tab, LF, CRLF, comment and semicolon; every construct with every such sequence of up to {} in every gap and up to 2 in every pair of gaps; {} literals; the programs of the formatting checks",
            tier.pick(2, 3),
            tier.pick(4, 5),
            families::literals(tier.pick(3, 4)).len(),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let words = gap_words(tier.pick(2, 3));
        depth2(PRODUCTIONS, PRODUCTIONS, &mut |p| {
            for gap in 0..=p.len() {
                for w in &words {
                    emit(Case(with(&p, &[(gap, w)])));
                }
            }
        });
        let long = gap_words(tier.pick(4, 5));
        let short = gap_words(2);
        for p in all(PRODUCTIONS) {
            let p = name(p);
            for gap in 0..=p.len() {
                for w in &long {
                    emit(Case(with(&p, &[(gap, w)])));
                }
                for other in gap + 1..=p.len() {
                    for w in &short {
                        for v in &short {
                            emit(Case(with(&p, &[(gap, w), (other, v)])));
                        }
                    }
                }
            }
        }
        depth3(SMALL, SMALL, SMALL, &mut |p| {
            for gap in 0..=p.len() {
                for w in ["", "\n", " # é\n \t", " \r\n"] {
                    emit(Case(with(&p, &[(gap, w)])));
                }
            }
        });
        for literal in families::literals(tier.pick(3, 4)) {
            for (before, after) in [("", ""), ("\n x<-", "# c"), ("f(", "\r\n )"), ("é+", "$b\n")] {
                emit(Case(format!("{before}{literal}{after}")));
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let src = &case.0;
        let Ok(tree) = mc::guard(|| r::parse(src)) else {
            ctx.outcome("panics");
            return Ok(());
        };
        let Some(tree) = tree else {
            ctx.outcome("rejected");
            return Ok(());
        };
        ctx.step(1);
        ctx.state(src);
        ctx.outcome("accepted");
        lossless(src, &tree.syntax())
    }
}

/// Tokens, as they come in any order
pub const TOKENS: &[&str] = &[
    "a", "1", "'s'", "(", ")", "{", "}", "[", "]", "[[", "]]", ",", "=", "<-", "+", "-", "?", "~", "!", "$", "::", "|>", ":=", ";", "\n", "# c\n", "if", "else", "for", "in", "while", "repeat", "function", "\\", "NULL", "...", "\"", "%", "%o%", "1L", "`", "r\"(",
];
/// Those that structure depends on
const CORE_TOKENS: &[&str] = &["a", "(", ")", "{", "}", "[[", "]]", ",", "=", "+", "\n", "if", "else", "function", "$", "# c\n", ";"];
const CHARACTERS: &[&str] = &[
    "\"", "'", "\\", "#", "\n", "\r", "r", "(", ")", "-", "`", "%", "0", "x", "e", ".", "L", "i", "_", "\u{feff}", "\0", "é", "\u{4e16}", " ", "\t", "\u{a0}", "\u{b}", "\u{c}", "\u{2028}", ":", "<", ">", "=", "|", "[", "]", "{", "}", "@",
];

impl Check for Total {
    type Case = Case;
    fn id(&self) -> &'static str {
        "P02"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all sequences of up to {} of {} tokens, with and without space between them; of up to {} of {} tokens; of up to {} of {} characters; each prefix and each text with one token left out of the nestings of 105 constructs",
            4,
            TOKENS.len(),
            tier.pick(5, 6),
            CORE_TOKENS.len(),
            tier.pick(4, 5),
            CHARACTERS.len(),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        mc::words(TOKENS.len(), 4, &mut |word| {
            let tokens: Vec<&str> = word.iter().map(|i| TOKENS[*i]).collect();
            emit(Case(tokens.join(" ")));
            emit(Case(tokens.concat()));
        });
        mc::words(CORE_TOKENS.len(), tier.pick(5, 6), &mut |word| {
            emit(Case(word.iter().map(|i| CORE_TOKENS[*i]).collect::<Vec<_>>().join(" ")));
        });
        mc::texts(CHARACTERS, tier.pick(4, 5), &mut |text| emit(Case(text.to_string())));
        depth2(PRODUCTIONS, PRODUCTIONS, &mut |p| {
            for i in 0..p.len() {
                emit(Case(with(&p[..i], &[])));
                emit(Case(with(&[&p[..i], &p[i + 1..]].concat(), &[])));
                let mut q = p.clone();
                q.swap(i, (i + 1) % p.len());
                emit(Case(with(&q, &[])));
            }
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let src = &case.0;
        let tree = grammar(src);
        let bad = tree.root_node().has_error();
        let parsed = match mc::guard(|| air_r_parser::parse(src, RParserOptions::default())) {
            Ok(parsed) => parsed,
            Err(panic) => return Err(format!("parsing {src:?} panics: {panic}").into()),
        };
        ctx.step(1);
        ctx.outcome(if bad { "rejected" } else { "accepted" });
        ensure!(parsed.has_error() == bad && parsed.error().is_some() == bad, "{src:?} is {} the grammar, but the parser gives {:?}", if bad { "not in" } else { "in" }, parsed.error());
        ensure_eq!(parsed.syntax().text_with_trivia().to_string(), src.as_str(), "text of the tree of {src:?}");
        ensure!(parsed.clone().into_result().is_err() == bad, "into_result of {src:?}");
        // biome's text asserts that it has no carriage returns; line endings are normalised before, which
        // leaves those that end no line
        if parts(&src.replace("\r\n", "\n")).iter().any(|(c, p)| *c == '\r' && *p == Part::Quoted) && !bad {
            ctx.outcome("carriage return in a string");
            return lossless(src, &parsed.syntax());
        }
        let options = r::options("", src)?;
        let result = match mc::guard(|| workspace::format::format_source(src, options)) {
            Ok(result) => result,
            Err(panic) => return Err(format!("formatting {src:?} panics: {panic}").into()),
        };
        if bad {
            ensure!(matches!(result, Err(workspace::format::FormatSourceError::Parse(_))), "{src:?} is not in the grammar, but formatting it gives {result:?}");
            return Ok(());
        }
        ctx.state(src);
        ensure!(parsed.syntax().descendants().all(|n| !matches!(n.kind(), K::R_BOGUS | K::R_BOGUS_VALUE | K::R_BOGUS_EXPRESSION)), "bogus nodes in the tree of {src:?}");
        ensure!(result.is_ok(), "formatting {src:?} fails: {:?}", result.err());
        lossless(src, &parsed.syntax())
    }
}
