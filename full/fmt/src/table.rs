//! F08: tables.
use air_r_syntax::{AnyRExpression, RCall};
use biome_rowan::{AstNode, AstSeparatedList};
use mc::{Check, Ctx, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};

use crate::r;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    src: String,
    toml: String,
    /// Can every cell be written on one line?
    flat: bool,
}

pub struct Table;

/// Where a call that is laid out as a table may stand
const HEADS: &[(&str, &str, &str)] = &[
    ("tribble(", ")", ""),
    ("tibble :: tribble (", ")", ""),
    ("# fmt: table\nf(", ")\n", ""),
    ("# fmt: table\nx = f(", ")", ""),
    ("{\n\n# c\n# fmt: table\np$g(", ")\n}\n", ""),
    ("y <- f(", ")", "table = [\"f\"]"),
    ("g(fcase(", "), a)", ""),
    ("h(\\(x) { f(", ") ; b })", "table = [\"e\", \"f\"]\nindent-style = \"tab\""),
    ("f(", ") |> g()", "table = [\"f\"]\nline-width = 5\npersistent-line-breaks = false"),
];

const CELLS: &[&str] = &[
    "1", "10", "1.5", "10.25", ".5", "5.", "1L", "100L", "-1", "+ 2.5", "-  10L", "1e3", "1e-10", "0x1F", "1.5e3", "1i", "- a", "--1",
    "a", "'s'", "\"long string\"", "~ x", "NULL", "TRUE", "é\u{4e16}", "'\u{1F600}'", "f( a,b )", "a+b", "x [1 , 2]", "function(x) x", "if (a) 1", "c(\n1,\n2)", "a |>\nb()", "(1)", "", "{}",
];

/// What takes more than a line
const TALL: &[&str] = &["{ a }", "'\n'", "\\(x) { x }", "if (a) { 1 }", "f(\n# c\na)", "g({\n1\n})", "- # c\n1"];

/// Few cells of each kind
const FEW: &[&str] = &["1", "10.25", "-2L", "'s'", "a+b", ""];

/// Cells above and next to each other, with comments around them
pub fn pairs(emit: &mut dyn FnMut(String, &str, bool)) {
    let mut all = |body: &str, flat: bool| {
        for (before, after, toml) in HEADS {
            emit(format!("{before}{body}{after}"), toml, flat);
        }
    };
    let is_flat = |c: &str| !TALL.contains(&c);
    // Each cell above each other, and next to each other
    let cells: Vec<&str> = [CELLS, TALL].concat();
    for a in &cells {
        for b in &cells {
            let flat = is_flat(a) && is_flat(b);
            for body in [
                format!("\n{a},{b}\n"),
                format!("\n{a},\n{b}\n"),
                format!("{a} ,1,\n{b},2,\n"),
                format!("\n1, {a},\n20 ,{b}"),
                format!("\n{a},1,{b},\n\n\n{b},{a} ,\n x = 1,\n  y = f( 2 )"),
            ] {
                all(&body, flat);
            }
        }
    }
    for a in &cells {
        for comments in ["\n# c1\nA, 1,\nA, 20\n", "\nA, 1, # c1\nA, 20 # c2\n", "\nA # c1\n, 1,\nA, 20\n", "A, 1,\n\n\n# c1\n\n\nA, 20,\n# c2\n", "\nA,1,\n# fmt: skip\nA,  20", "\n100,1000,\n# c1\nA,\n# c2\nA,\n", "\n100,1000,\nA # c1\n,\nA # c2\n", "\nA,1,\nx  =  A, # c1\nb\n", "\nA, # c1\n2,\n1\n# c2\n, 1,\n3,4"] {
            all(&comments.replace('A', a), is_flat(a));
        }
    }
}

impl Check for Table {
    type Case = Case;
    fn id(&self) -> &'static str {
        "F08"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "calls in {} places: all rows of 1 and 2 cells out of {} and 2 x 2 tables of one varying column, all sequences of up to {} cells out of {} with every choice of separator (same row, next row, blank line, space around), with and without a trailing comma, named arguments and comments",
            HEADS.len(),
            CELLS.len(),
            tier.pick(4, 5),
            FEW.len(),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        pairs(&mut |src, toml, flat| emit(Case { src, toml: toml.to_string(), flat }));
        let mut all = |body: &str, flat: bool| {
            for (before, after, toml) in HEADS {
                emit(Case { src: format!("{before}{body}{after}"), toml: toml.to_string(), flat });
            }
        };
        mc::words(FEW.len(), tier.pick(4, 5), &mut |word| {
            if word.is_empty() {
                return;
            }
            mc::words_of(3, word.len() + 1, &mut |separators| {
                let mut body = ["", "\n", "\n\n\n"][separators[0]].to_string();
                for (i, w) in word.iter().enumerate() {
                    body += FEW[*w];
                    if i + 1 < word.len() {
                        body += [", ", " ,\n", ",\n\n\n"][separators[i + 1]];
                    }
                }
                body += ["", "\n", ",\n"][separators[word.len()]];
                all(&body, true);
            });
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let Some(tree) = r::parse(&case.src) else {
            ctx.outcome("rejected");
            return Ok(());
        };
        let src = &case.src;
        let what = format!("under [{}], {src:?}", case.toml.replace('\n', "; "));
        let Ok(Ok(out)) = mc::guard(|| r::format_parsed(&tree, &case.toml, src)) else {
            return Err(format!("{what} does not format").into());
        };
        ctx.step(1);
        ctx.state(&out);
        let Some(after) = r::parse(&out) else { return Err(format!("{what} formats to {out:?}, which does not parse").into()) };
        let style = crate::fmt::assign(&case.toml);
        if let Err(e) = r::same_meaning(&r::meaning(&tree.syntax()), &r::meaning(&after.syntax()), style) {
            return Err(format!("{what} formats to {out:?}: {e}").into());
        }
        ensure_eq!(crate::oracle::comments(src).join(" "), crate::oracle::comments(&out).join(" "), "comments when {what} formats to {out:?}");
        let (Some(before), Some(now)) = (call(&tree.syntax(), src), call(&after.syntax(), &out)) else { return Err(format!("no table in {what}").into()) };
        if !case.flat {
            ctx.outcome("verbatim");
            let text = |args: &air_r_syntax::RCallArguments| args.syntax().text_trimmed().to_string();
            // Cells that need lines of their own leave the call as it is
            ensure_eq!(text(&before.1), text(&now.1), "arguments when {what} formats to {out:?}");
            return Ok(());
        }
        ctx.outcome("table");
        let (b, a) = (cells(&before.1, src), cells(&now.1, &out));
        ensure_eq!(b.len(), a.len(), "number of arguments when {what} formats to {out:?}");
        let unnamed = b.iter().position(|c| c.named).unwrap_or(b.len());
        // Rows as written
        for i in 0..unnamed {
            // A last hole has no place of its own
            if i + 1 == b.len() && b[i].hole {
                continue;
            }
            if i > 0 {
                ensure!(b[i].new_row == a[i].new_row, "{what} formats to {out:?}: cell {i} {} a new row", if a[i].new_row { "starts" } else { "no longer starts" });
            }
            ensure!(a[i].flat, "{what} formats to {out:?}: cell {i} is broken");
        }
        // Columns
        let mut column = 0;
        let mut at: Vec<[Option<usize>; 3]> = Vec::new();
        for i in 0..unnamed {
            if i > 0 && b[i].new_row {
                column = 0;
            } else if i > 0 {
                column += 1;
            }
            if at.len() <= column {
                at.push([None; 3]);
            }
            let mut same = |kind: usize, place: usize, of: &str| {
                let first = at[column][kind].get_or_insert(place);
                ensure!(*first == place, "{what} formats to {out:?}: the {of} in column {column} is at {place} and {first}");
                Ok(())
            };
            if let Some(comma) = a[i].comma && i + 1 < b.len() {
                same(0, comma, "comma").map_err(|e: mc::Failure| e)?;
            }
            if a[i].hole {
                continue;
            }
            if let Some(width) = integer_part(&a[i].text) {
                same(1, a[i].column + width, "end of the integer part")?;
            } else {
                same(2, a[i].column, "start of the cell")?;
            }
        }
        Ok(())
    }
}

type Args = air_r_syntax::RCallArguments;

/// The call that is a table: the one named so
fn call(node: &air_r_syntax::RSyntaxNode, _src: &str) -> Option<(RCall, Args)> {
    for n in node.descendants() {
        let Some(call) = RCall::cast(n) else { continue };
        let Ok(f) = call.function() else { continue };
        let name = f.syntax().text_trimmed().to_string();
        let name = name.rsplit([':', '$', ' ']).next().unwrap_or("");
        let table = ["tribble", "fcase"].contains(&name) || name == "f" || name == "g" && matches!(f, AnyRExpression::RExtractExpression(_));
        if table {
            let args = call.arguments().ok()?;
            return Some((call, args));
        }
    }
    None
}

struct Cell {
    text: String,
    hole: bool,
    named: bool,
    new_row: bool,
    flat: bool,
    column: usize,
    /// Where the comma behind it is
    comma: Option<usize>,
}

fn cells(args: &Args, src: &str) -> Vec<Cell> {
    let items = args.items();
    let place = |offset: usize| {
        let line = src[..offset].rfind('\n').map_or(0, |i| i + 1);
        src[line..offset].chars().count()
    };
    // Line breaks outside of comments between the end of what is before and the start of the cell
    let mut end = usize::from(args.l_paren_token().unwrap().text_trimmed_range().end());
    let mut out = Vec::new();
    let mut leading_comment = false;
    for element in items.elements() {
        let node = element.node().unwrap();
        let comma = element.trailing_separator().unwrap().cloned();
        let hole = node.syntax().text_trimmed().is_empty();
        let range = node.syntax().text_trimmed_range();
        let comma_at = comma.as_ref().map(|c| usize::from(c.text_trimmed_range().start()));
        let start = if hole { comma_at.unwrap_or(usize::from(args.r_paren_token().unwrap().text_trimmed_range().start())) } else { usize::from(range.start()) };
        let text = if hole { String::new() } else { node.syntax().text_trimmed().to_string() };
        out.push(Cell {
            new_row: leading_comment || src[end..start].contains('\n'),
            flat: !text.contains('\n'),
            hole,
            named: node.name_clause().is_some(),
            column: place(start),
            comma: comma_at.map(place),
            text,
        });
        // A comment on a line of its own in front of the comma is one of the next cell
        let between = &src[usize::from(range.end())..comma_at.unwrap_or(usize::from(range.end()))];
        leading_comment = !hole && between.lines().skip(1).any(|l| l.trim_start().starts_with('#'));
        end = comma.map_or(start, |c| usize::from(c.text_trimmed_range().end()));
    }
    out
}

/// The width up to the decimal point, of a number
fn integer_part(text: &str) -> Option<usize> {
    let digits = text.trim_start_matches(['-', '+']);
    if text.len() - digits.len() > 1 {
        return None;
    }
    if !digits.starts_with(|c: char| c.is_ascii_digit() || c == '.') || digits.ends_with('i') || digits == "..." {
        return None;
    }
    if !digits.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+')) {
        return None;
    }
    Some(text.find('.').unwrap_or(if text.ends_with('L') { text.len() - 1 } else { text.len() }))
}
