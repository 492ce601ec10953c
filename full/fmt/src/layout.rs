//! F07: the layout does not depend on incidental whitespace.
use air_r_syntax::{RSyntaxElement, RSyntaxKind, RSyntaxNode};
use biome_rowan::NodeOrToken;
use mc::{Check, Ctx, Tier, Verdict, ensure};
use serde::{Deserialize, Serialize};

use crate::r#gen::*;
use crate::r;

/// Two texts of the same program
#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    one: String,
    other: String,
    toml: String,
}

pub struct Layout;

/// Every way to break lines in the first gaps of a program, up to a number of them
fn breaks(p: &[Tok], first: usize, count: usize, f: &mut dyn FnMut(&[(usize, Gap)])) {
    let gaps: Vec<usize> = (1..p.len()).filter(|i| !p[i - 1].newline).skip(first).take(count).collect();
    for subset in 1u32..1 << gaps.len() {
        let chosen: Vec<_> = gaps.iter().enumerate().filter(|(i, _)| subset >> i & 1 == 1).map(|(_, g)| (*g, Gap::Line)).collect();
        f(&chosen);
    }
}

const NOT_PERSISTENT: &[&str] = &["persistent-line-breaks = false", "persistent-line-breaks = false\nline-width = 8"];
const ANY: &[&str] = &["", "line-width = 8\nassignment-style = \"equal\"", "persistent-line-breaks = false"];

fn braces_asked_for(root: &RSyntaxNode) -> Vec<bool> {
    let breaks = |node: Option<RSyntaxElement>| {
        let first = match node {
            Some(NodeOrToken::Node(node)) => node.first_token(),
            Some(NodeOrToken::Token(token)) => Some(token),
            None => None,
        };
        first.is_some_and(|t| t.has_leading_newline())
    };
    let mut out = vec![];
    for node in root.descendants() {
        match node.kind() {
            RSyntaxKind::R_FUNCTION_DEFINITION => out.push(breaks(node.slots().last().and_then(|s| s.into_syntax_element()))),
            RSyntaxKind::R_IF_STATEMENT => out.push(breaks(node.slots().nth(4).and_then(|s| s.into_syntax_element()))),
            RSyntaxKind::R_ELSE_CLAUSE => out.extend(node.slots().map(|s| breaks(s.into_syntax_element()))),
            _ => {}
        }
    }
    out
}

impl Check for Layout {
    type Case = Case;
    fn id(&self) -> &'static str {
        "F07"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "without persistent line breaks: every set of line breaks between the tokens (of the first {0} gaps, and of {0} further ones) of every pair of {1} constructs nested in each other, and of 17^3 triples; with and without: no space, and wide space, in every gap and in every single gap of every pair of 105 constructs nested in each other, on a line or with one line break in any gap; normal and narrow lines",
            tier.pick(8, 13),
            tier.pick(37, 105),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let mut lines = |p: Vec<Tok>| {
            let one = render(&p, &[]);
            let count = tier.pick(8, 13);
            for first in [0, count] {
                breaks(&p, first, count, &mut |gaps| {
                    for toml in NOT_PERSISTENT {
                        emit(Case { one: one.clone(), other: render(&p, gaps), toml: toml.to_string() });
                    }
                });
            }
        };
        for p in all(PRODUCTIONS) {
            lines(name(p));
        }
        depth2(tier.pick(CORE, PRODUCTIONS), tier.pick(CORE, PRODUCTIONS), &mut lines);
        if tier == Tier::Thorough {
            depth3(SMALL, SMALL, SMALL, &mut lines);
        }
        depth2(PRODUCTIONS, PRODUCTIONS, &mut |p| {
            perturb(&p, tier.pick(1, 2), &[Gap::Line], &mut |gaps| {
                let one = render(&p, gaps);
                let free: Vec<usize> = (1..p.len()).filter(|i| !p[i - 1].newline && gaps.iter().all(|(j, _)| j != i)).collect();
                let mut variants = vec![];
                for kind in [Gap::None, Gap::Wide] {
                    variants.push(free.iter().map(|i| (*i, kind)).collect::<Vec<_>>());
                    if gaps.is_empty() {
                        variants.extend(free.iter().map(|i| vec![(*i, kind)]));
                    }
                }
                for v in variants {
                    let other = render(&p, &[gaps, &v].concat());
                    for toml in ANY {
                        emit(Case { one: one.clone(), other: other.clone(), toml: toml.to_string() });
                    }
                }
            });
        });
        // Around line breaks
        depth2(CORE, CORE, &mut |p| {
            let one = render(&p, &[]);
            let other = one.replace('\n', " \t\n\t  ");
            for toml in ANY {
                emit(Case { one: format!("{one}\n"), other: format!("  {other}  \n"), toml: toml.to_string() });
            }
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        // A line of a semicolon alone is an empty line, and those stay
        if case.other.contains("\n;\n") {
            ctx.outcome("empty line");
            return Ok(());
        }
        let (Some(one), Some(other)) = (r::parse(&case.one), r::parse(&case.other)) else {
            ctx.outcome("rejected");
            return Ok(());
        };
        // A line break may end a statement, and no space may make one token of two
        if r::meaning(&one.syntax()) != r::meaning(&other.syntax()) || r::incomplete(&one.syntax()) {
            ctx.outcome("another program");
            return Ok(());
        }
        // Line breaks in front of the body of a function or the parts of an if statement ask for braces
        if braces_asked_for(&one.syntax()) != braces_asked_for(&other.syntax()) {
            ctx.outcome("other braces");
            return Ok(());
        }
        let go = |parse, src: &str| mc::guard(|| r::format_parsed(parse, &case.toml, src)).map_err(|e| format!("{src:?}: {e}"))?.map_err(|e| format!("{src:?}: {e}"));
        let (a, b) = (go(&one, &case.one)?, go(&other, &case.other)?);
        ctx.step(2);
        ctx.state(&a);
        ctx.outcome("same program");
        ensure!(a == b, "under [{}], {:?} formats to {a:?}, but {:?} to {b:?}", case.toml.replace('\n', "; "), case.one, case.other);
        Ok(())
    }
}
