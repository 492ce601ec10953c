//! Where a violation is: smallest failing variant of a case, and the call sites in it.
use air_r_syntax::{RSyntaxKind as K, RSyntaxToken};
use biome_rowan::AstNode;
use mc::Ctx;

use crate::families::Case;
use crate::r#gen::*;
use crate::fmt::Fmt;
use crate::oracle::{Part, parts};
use crate::r;

/// Takes away from a failing case whatever it fails without
pub fn minimise(check: &Fmt, case: &Case, kind: &str) -> Case {
    let fails = |c: &Case| check.plain(c, &mut Ctx::default()).is_err_and(|f| f.key == kind);
    let mut best = case.clone();
    loop {
        let mut smaller = Vec::new();
        for i in 0..best.gaps.len() {
            let mut c = best.clone();
            c.gaps.remove(i);
            smaller.push(c);
        }
        for i in 0..best.gaps.len() {
            for kind in [Gap::Line, Gap::Blank, Gap::Blanks, Gap::Own, Gap::Trailing, Gap::Apart] {
                if kind == best.gaps[i].1 { break }
                let mut c = best.clone();
                c.gaps[i].1 = kind;
                smaller.push(c);
            }
        }
        let lines: Vec<&str> = best.toml.lines().collect();
        for i in 0..lines.len() {
            let mut l = lines.clone();
            l.remove(i);
            let mut c = best.clone();
            c.toml = l.join("\n");
            smaller.push(c);
        }
        match smaller.into_iter().find(|c| fails(c)) {
            Some(c) => best = c,
            None => return best,
        }
    }
}

fn operator_class(op: &str) -> &str {
    match op {
        "?" | "^" | "**" | ":" => "sticky",
        "<-" | "=" | "<<-" | "~" => "assign",
        "->" | "->>" | ":=" => "assign2",
        "==" | "!=" | "<" | "<=" | ">" | ">=" => "compare",
        "$" | "@" | "::" | ":::" => "select",
        "!" | "-" | "+" | "|>" | "*" | "/" | "&" | "&&" | "|" | "||" => "chain",
        op if op.starts_with('%') => "chain",
        op => op,
    }
}

/// A changed gap, by the innermost construct that it is in, and the parts of that around it
pub fn place(tokens: &[RSyntaxToken], end: usize) -> String {
    let start_of = |t: &RSyntaxToken| usize::from(t.text_trimmed_range().start());
    let before = tokens.iter().rev().find(|t| start_of(t) < end && !t.text_trimmed().is_empty());
    let after = tokens.iter().find(|t| start_of(t) >= end && !t.text_trimmed().is_empty());
    let (Some(before), Some(after)) = (before, after) else {
        return if before.is_none() { "start" } else { "end" }.to_string();
    };
    let up: Vec<_> = after.ancestors().collect();
    let Some(node) = before.ancestors().find(|n| up.contains(n)) else { return "?".into() };
    let mut operator = String::new();
    let label = |t: &RSyntaxToken| {
        let top = t.ancestors().take_while(|n| *n != node).last();
        match top {
            None => {
                let text = t.text_trimmed();
                match node.kind() {
                    K::R_BINARY_EXPRESSION | K::R_UNARY_EXPRESSION | K::R_EXTRACT_EXPRESSION | K::R_NAMESPACE_EXPRESSION => "op".to_string(),
                    _ => text.to_string(),
                }
            }
            Some(n) if air_r_syntax::AnyRExpression::can_cast(n.kind()) => match n.kind() {
                K::R_BRACED_EXPRESSIONS => "{}".to_string(),
                _ => "expr".to_string(),
            },
            // Blocks and functions are hugged
            Some(n) if n.kind() == K::R_ARGUMENT => match n.last_child().map(|c| c.kind()) {
                Some(K::R_BRACED_EXPRESSIONS) => "argument {}".to_string(),
                Some(K::R_FUNCTION_DEFINITION) => "argument function".to_string(),
                _ => "argument".to_string(),
            },
            Some(n) => format!("{:?}", n.kind()).trim_start_matches("R_").to_lowercase(),
        }
    };
    let (b, a) = (label(before), label(after));
    if let K::R_BINARY_EXPRESSION | K::R_UNARY_EXPRESSION | K::R_EXTRACT_EXPRESSION | K::R_NAMESPACE_EXPRESSION = node.kind() {
        if let Some(t) = node.children_with_tokens().find_map(|c| c.into_token()) {
            operator = format!("({})", operator_class(t.text_trimmed()));
        }
    }
    let operator_around = |n: &air_r_syntax::RSyntaxNode| {
        let parent = n.parent()?;
        match parent.kind() {
            K::R_BINARY_EXPRESSION | K::R_UNARY_EXPRESSION | K::R_EXTRACT_EXPRESSION | K::R_NAMESPACE_EXPRESSION => {
                let op = parent.children_with_tokens().find_map(|c| c.into_token())?;
                Some(operator_class(op.text_trimmed()).to_string())
            }
            _ => None,
        }
    };
    let context = match node.kind() {
        // Comments in headers move in front of the construct, that may be behind an operator
        K::R_FOR_STATEMENT | K::R_WHILE_STATEMENT | K::R_FUNCTION_DEFINITION if matches!(operator_around(&node).as_deref(), Some("sticky" | "assign" | "assign2")) => " (at an operator)",
        K::R_PARENTHESIZED_EXPRESSION if operator_around(&node).is_some() => " (at an operator)",
        // Curly-curly
        K::R_BRACED_EXPRESSIONS if is_curly_curly(&node) => " ({{)",
        _ => "",
    };
    let kind = format!("{:?}", node.kind()).trim_start_matches("R_").trim_end_matches("_EXPRESSION").trim_end_matches("_STATEMENT").to_lowercase();
    format!("{kind}{operator}: {b} _ {a}{context}")
}

/// Is a node one of the two pairs of `{{ a }}`?
fn is_curly_curly(node: &air_r_syntax::RSyntaxNode) -> bool {
    let only_braced = |n: &air_r_syntax::RSyntaxNode| {
        let Some(list) = n.children().find(|c| c.kind() == K::R_EXPRESSION_LIST) else { return false };
        list.children().count() == 1 && list.first_child().is_some_and(|c| c.kind() == K::R_BRACED_EXPRESSIONS)
    };
    only_braced(node) || node.parent().and_then(|p| p.parent()).is_some_and(|p| p.kind() == K::R_BRACED_EXPRESSIONS && only_braced(&p))
}

/// A comment, and where it stands
pub struct Site {
    /// Number of the comment in the text
    pub index: usize,
    pub name: String,
}

/// Where the comments of a text stand
pub fn comment_sites(src: &str) -> Vec<Site> {
    let Some(tree) = r::parse(src) else { return Vec::new() };
    let tokens = r::tokens(&tree.syntax());
    let mut out = Vec::new();
    let (mut byte, mut in_comment, mut own_line) = (0, false, true);
    for (c, part) in parts(src) {
        if part == Part::Comment && !in_comment {
            in_comment = true;
            let kind = if own_line { "own-line" } else { "end-of-line" };
            let kind = match src[byte..].lines().next().unwrap().trim_end().strip_prefix("# fmt: ") {
                Some(directive) => format!("{kind} `{directive}`"),
                None => kind.to_string(),
            };
            out.push(Site { index: out.len(), name: format!("{kind} comment in {}", place(&tokens, byte)) });
        }
        if c == '\n' && part == Part::Code {
            in_comment = false;
            own_line = true;
        } else if !c.is_whitespace() {
            own_line = false;
        }
        byte += c.len_utf8();
    }
    out
}

/// The text without some of its comments
pub fn without(src: &str, remove: &[Site]) -> String {
    let mut out = String::new();
    let (mut n, mut in_comment, mut removing) = (0, false, false);
    for (c, part) in parts(src) {
        if part == Part::Comment && !in_comment {
            in_comment = true;
            removing = remove.iter().any(|s| s.index == n);
            n += 1;
            if removing {
                let kept = out.trim_end_matches([' ', '\t']).len();
                out.truncate(kept);
            }
        }
        if c == '\n' && part == Part::Code {
            // A comment on its own line goes with its line
            let whole = removing && (out.is_empty() || out.ends_with('\n'));
            in_comment = false;
            removing = false;
            if whole {
                continue;
            }
        }
        if !removing {
            out.push(c);
        }
    }
    out
}

/// Names a violation by where the comments and the changed gaps are
pub fn signature(case: &Case) -> String {
    let src = case.src();
    let mut out: Vec<String> = comment_sites(&src).into_iter().map(|s| s.name).collect();
    let tree = r::parse(&src);
    let tokens = tree.as_ref().map(|t| r::tokens(&t.syntax())).unwrap_or_default();
    for (i, kind) in &case.gaps {
        let kind = match kind {
            Gap::Blank | Gap::Blanks => "blank",
            Gap::Line => "line",
            _ => continue,
        };
        // offset of the gap in the text
        let mut partial = case.clone();
        partial.toks.truncate(*i);
        partial.gaps.retain(|(j, _)| j < i);
        let end = if *i == 0 { 0 } else { partial.src().trim_end().len() };
        out.push(format!("{kind} in {}", place(&tokens, end)));
    }
    if out.is_empty() {
        out.push(src);
    }
    if !case.toml.is_empty() {
        out.push(case.toml.replace('\n', ", "));
    }
    out.join("; ")
}
