//! F13: comments and blank lines stay where they are.
use air_r_syntax::{RSyntaxKind as K, RSyntaxNode, RSyntaxToken};
use biome_rowan::Direction;
use mc::{Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};

use crate::r#gen::*;
use crate::oracle::{Part, parts};
use crate::{r, sites};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    src: String,
    toml: String,
}

pub struct Place;

/// A token or a comment
struct Event {
    text: String,
    comment: bool,
    /// Line breaks in front of it
    lines: usize,
    /// How far its line is indented, and is it the first on it?
    indent: usize,
    first: bool,
    token: Option<RSyntaxToken>,
    at: usize,
}

fn events(text: &str, root: &RSyntaxNode) -> Vec<Event> {
    let mut spans: Vec<(usize, usize, Option<RSyntaxToken>)> = root
        .descendants_tokens(Direction::Next)
        .filter(|t| t.kind() != K::SEMICOLON && !t.text_trimmed().is_empty())
        .map(|t| (t.text_trimmed_range().start().into(), t.text_trimmed_range().end().into(), Some(t)))
        .collect();
    let mut at = 0;
    let mut open = None;
    for (c, part) in parts(text) {
        match (part == Part::Comment, open) {
            (true, None) => open = Some(at),
            (false, Some(start)) => {
                spans.push((start, at, None));
                open = None;
            }
            _ => {}
        }
        at += c.len_utf8();
    }
    if let Some(start) = open {
        spans.push((start, at, None));
    }
    // Two comments may have come to stand behind each other
    let merged = |(start, end, token): (usize, usize, Option<RSyntaxToken>)| {
        let mut out = Vec::new();
        let mut rest = start;
        while let Some(i) = text[rest..end].find(" #").filter(|_| token.is_none()) {
            out.push((rest, rest + i, None));
            rest += i + 1;
        }
        out.push((rest, end, token));
        out
    };
    let mut spans: Vec<_> = spans.into_iter().flat_map(merged).collect();
    spans.sort_by_key(|s| s.0);
    let mut before = 0;
    let mut out = Vec::new();
    for (start, end, token) in spans {
        let line = text[..start].rfind('\n').map_or(0, |i| i + 1);
        out.push(Event {
            text: text[start..end].trim_end().to_string(),
            comment: token.is_none(),
            lines: text[before..start].matches('\n').count(),
            indent: text[line..].chars().take_while(|c| *c == ' ' || *c == '\t').count(),
            first: text[line..start].trim().is_empty(),
            token,
            at: start,
        });
        before = end;
    }
    out
}

/// The innermost construct around a gap
fn around(events: &[Event], i: usize) -> Option<RSyntaxNode> {
    let before = events[..i].iter().rev().find_map(|e| e.token.clone());
    let after = events[i..].iter().find_map(|e| e.token.clone());
    match (before, after) {
        (Some(b), Some(a)) => {
            let up: Vec<_> = a.ancestors().collect();
            b.ancestors().find(|n| up.contains(n))
        }
        (Some(t), None) | (None, Some(t)) => t.ancestors().last(),
        (None, None) => None,
    }
}

const STATEMENTS: &[K] = &[K::R_ROOT, K::R_EXPRESSION_LIST, K::R_BRACED_EXPRESSIONS];
const LISTS: &[K] =
    &[K::R_CALL_ARGUMENTS, K::R_SUBSET_ARGUMENTS, K::R_SUBSET2_ARGUMENTS, K::R_ARGUMENT_LIST, K::R_PARAMETERS, K::R_PARAMETER_LIST];

fn same(a: &Event, b: &Event) -> bool {
    let assigns = |t: &str| t == "<-" || t == "=";
    a.comment == b.comment && (a.text == b.text || assigns(&a.text) && assigns(&b.text))
}

fn claimed(events: &[Event], i: usize) -> bool {
    around(events, i).is_none_or(|n| {
        // Curly-curly is F09's
        let within = |n: &RSyntaxNode| n.kind() == K::R_BRACED_EXPRESSIONS && n.children().any(|l| l.children().any(|c| c.kind() == K::R_BRACED_EXPRESSIONS));
        let mut up = n.ancestors().take(3).filter(|n| n.kind() == K::R_BRACED_EXPRESSIONS);
        let curly = n.kind() != K::R_EXPRESSION_LIST && (within(&n) || up.nth(1).is_some_and(|n| within(&n)));
        !curly && (STATEMENTS.contains(&n.kind()) || LISTS.contains(&n.kind()))
    })
}

fn opener(e: &Event) -> bool {
    matches!(e.text.as_str(), "{" | "(" | "[" | "[[")
}
fn closer(e: &Event) -> bool {
    matches!(e.text.as_str(), "}" | ")" | "]" | "]]")
}
/// Does this come right behind an opening delimiter (or behind comments there)?
fn opens(events: &[Event], i: usize) -> bool {
    events[..i].iter().rev().find(|e| !e.comment).is_some_and(opener)
}
/// ... right behind a comma with nothing in front of it?
fn behind_hole(events: &[Event], i: usize) -> bool {
    let mut before = events[..i].iter().rev().filter(|e| !e.comment);
    before.next().is_some_and(|e| e.text == ",") && before.next().is_none_or(|e| opener(e) || e.text == ",")
}
/// ... right in front of a comma?
fn before_comma(events: &[Event], i: usize) -> Option<usize> {
    (i..events.len()).find(|j| !events[*j].comment).filter(|j| events[*j].text == ",")
}

/// How many line breaks may stand in front of something? (Nothing: that is for F11 to say)
fn lines_allowed(s: &[Event], i: usize, lines: usize) -> Option<Vec<usize>> {
    let a = &s[i];
    if i == 0 {
        return Some(vec![0]);
    }
    if !claimed(s, i) {
        return None;
    }
    let prev = &s[i - 1];
    let node = around(s, i)?;
    if STATEMENTS.contains(&node.kind()) {
        // In the file, two blank lines may stand between statements
        let most = if node.kind() == K::R_EXPRESSION_LIST && node.parent().is_some_and(|p| p.kind() == K::R_ROOT) { 3 } else { 2 };
        return Some(match () {
            _ if opener(prev) => vec![usize::from(!closer(a))],
            _ if closer(a) => vec![1],
            _ if a.comment && !a.first => vec![0],
            _ if prev.comment && !prev.first && opens(s, i - 1) => vec![1, a.lines.clamp(1, 2)],
            _ if prev.comment => vec![a.lines.clamp(1, 2)],
            _ => vec![a.lines.clamp(1, most)],
        });
    }
    if a.comment && before_comma(s, i).is_some() || behind_hole(s, i) || !a.comment && !prev.comment && prev.text != "," {
        return None;
    }
    match () {
        _ if opener(prev) => Some(vec![1]),
        _ if a.comment && !a.first => Some(vec![0]),
        _ if prev.comment && closer(a) => Some(vec![1]),
        _ if prev.comment && before_comma(s, i - 1).is_some() => None,
        _ if prev.comment && !prev.first && opens(s, i - 1) => Some(vec![1, a.lines.clamp(1, 2)]),
        _ if prev.comment => Some(vec![a.lines.clamp(1, 2)]),
        // A comment in front of the comma
        _ if prev.text == "," && (closer(a) || i > 1 && s[i - 2].comment) => None,
        _ if lines == 0 && !a.comment => None,
        _ => Some(vec![a.lines.clamp(1, 2)]),
    }
}

const OPTIONS: &[&str] = &["", "line-width = 8", "persistent-line-breaks = false", "indent-width = 4", "indent-style = \"tab\"\nline-width = 8"];
/// Statements and lists in a row
const ROWS: &[&str] = &[
    "@@ \\n @@ \\n @@", "{ @@ \\n @@ \\n @@ }", "f ( { @@ \\n @@ } )", "x <- { @@ \\n { @@ } \\n @@ }", "f ( @@ , @@ , @@ )", "f ( x = @@ , @@ , y = @@ )", "f ( @@ , ) \\n @@",
    "x [ @@ , @@ ]", "x [[ @@ , @@ ]]", "function ( x = @@ , y , z = @@ ) { @@ \\n @@ }", "if ( a ) { @@ \\n @@ } else { @@ \\n @@ }", "f ( @@ , function ( x , y ) { @@ \\n @@ } )",
];

impl Check for Place {
    type Case = Case;
    fn id(&self) -> &'static str {
        "F13"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every construct, and every row of {} statements or arguments, with up to {} comments, line breaks or blank lines between its tokens; every pair of {} constructs with up to {}; every such row with {} constructs in one place; under {} settings",
            ROWS.len(),
            tier.pick(2, 3),
            CORE.len(),
            tier.pick(1, 2),
            tier.pick(SMALL.len(), PRODUCTIONS.len()),
            OPTIONS.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let mut go = |p: Vec<Tok>, k: usize, kinds: &[Gap]| {
            perturb(&p, k, kinds, &mut |gaps| {
                for toml in OPTIONS {
                    emit(Case { src: render(&p, gaps), toml: toml.to_string() });
                }
            });
        };
        for p in all(PRODUCTIONS) {
            go(name(p), 2, ALL_TRIVIA);
        }
        for p in all(ROWS) {
            go(name(p), tier.pick(2, 3), ALL_TRIVIA);
        }
        depth2(CORE, CORE, &mut |p| go(p, 1, ALL_TRIVIA));
        depth2(ROWS, tier.pick(SMALL, PRODUCTIONS), &mut |p| go(p, 1, TRIVIA));
        if tier == Tier::Thorough {
            depth2(CORE, CORE, &mut |p| go(p, 2, &[Gap::Blanks, Gap::Trailing, Gap::Apart]));
        }
        if tier == Tier::Thorough {
            depth3(SMALL, SMALL, SMALL, &mut |p| go(p, 1, TRIVIA));
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let Some(tree) = r::parse(&case.src) else {
            ctx.outcome("rejected");
            return Ok(());
        };
        if r::incomplete(&tree.syntax()) || case.src.contains(';') {
            ctx.outcome("incomplete");
            return Ok(());
        }
        let out = r::format(&case.src, &case.toml).unwrap().map_err(|e| format!("{:?}: {e}", case.src))?;
        let Some(after) = r::parse(&out) else { return Ok(()) };
        ctx.step(1);
        ctx.state(&out);
        let (s, o) = (events(&case.src, &tree.syntax()), events(&out, &after.syntax()));
        let fail = |what: String, i: usize, s: &[Event]| {
            let tokens: Vec<RSyntaxToken> = s.iter().filter_map(|e| e.token.clone()).collect();
            mc::Failure { key: format!("{what} {}", sites::place(&tokens, s[i].at)), what: format!("under [{}], {:?} formats to {out:?}: {what} {}", case.toml.replace('\n', "; "), case.src, s[i].text) }
        };
        // Comments elsewhere are not looked at, nor those on both sides of a comma
        let elsewhere: Vec<String> = (0..s.len())
            .filter(|i| s[*i].comment && (!claimed(&s, *i) || before_comma(&s, *i).is_some_and(|comma| s.get(comma + 1).is_some_and(|e| e.comment))))
            .map(|i| s[i].text.clone())
            .collect();
        let count = |e: &[Event]| e.iter().filter(|e| e.text == "{").count();
        let braces = count(&s) != count(&o);
        let keep = |e: &Event| !elsewhere.contains(&e.text) && e.text != "," && !(braces && matches!(e.text.as_str(), "{" | "}"));
        let (ks, ko): (Vec<usize>, Vec<usize>) = ((0..s.len()).filter(|i| keep(&s[*i])).collect(), (0..o.len()).filter(|i| keep(&o[*i])).collect());
        for (i, j) in ks.iter().zip(&ko) {
            let (a, b) = (&s[*i], &o[*j]);
            if !same(a, b) {
                let of = if a.comment { Some(*i) } else { s.iter().position(|e| e.comment && e.text == b.text) };
                match of {
                    Some(i) => return Err(fail("moved".into(), i, &s)),
                    None => return Ok(()),
                }
            }
            if a.comment {
                if a.first && !b.first || !a.first && b.first != opens(&s, *i) && elsewhere.is_empty() && !behind_hole(&s, *i) {
                    return Err(fail(if a.first { "no more on a line of its own".into() } else { "on a line of its own".to_string() }, *i, &s));
                }
                if b.first {
                    let next = o[*j..].iter().find(|e| !e.comment);
                    let step = if case.toml.contains("tab") { 1 } else if case.toml.contains("indent-width = 4") { 4 } else { 2 };
                    let want = next.map_or(0, |n| n.indent + if matches!(n.text.as_str(), "}" | ")" | "]" | "]]") { step } else { 0 });
                    if b.indent != want {
                        return Err(fail(format!("indented by {}, should be {want}", b.indent), *i, &s));
                    }
                }
            }
            if elsewhere.is_empty() {
                if let Some(allowed) = lines_allowed(&s, *i, b.lines) {
                    if !allowed.contains(&b.lines) {
                        return Err(fail(format!("{} line breaks, should be {allowed:?}, in front of", b.lines), *i, &s));
                    }
                }
            }
        }
        Ok(())
    }
}
