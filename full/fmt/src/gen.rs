//! Enumeration of R programs.
//!
//! Programs are built from templates by filling their holes with further templates, up to a
//! depth, and then by changing what stands in the gaps between their tokens (line breaks, blank
//! lines, comments), up to a number of changed gaps.

use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Tok {
    pub text: String,
    /// Is there a line break after it?
    pub newline: bool,
}

pub const HOLE: &str = "@@";
/// A line break after the token before it
const NL: &str = "\\n";

pub fn toks(template: &str) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    for word in template.split(' ').filter(|w| !w.is_empty()) {
        if word == NL {
            out.last_mut().unwrap().newline = true;
        } else {
            out.push(Tok { text: word.to_string(), newline: false });
        }
    }
    out
}

pub fn holes(toks: &[Tok]) -> usize {
    toks.iter().filter(|t| t.text == HOLE).count()
}

/// Fills the given holes, and names the others
pub fn fill(outer: &[Tok], fills: &[(usize, &[Tok])]) -> Vec<Tok> {
    let mut out = Vec::new();
    let mut hole = 0;
    for t in outer {
        if t.text == HOLE {
            if let Some((_, inner)) = fills.iter().find(|(i, _)| *i == hole) {
                out.extend(inner.iter().cloned());
                if let Some(last) = out.last_mut() {
                    last.newline |= t.newline;
                }
            } else {
                out.push(t.clone());
            }
            hole += 1;
        } else {
            out.push(t.clone());
        }
    }
    out
}

/// Names the holes that are left
pub fn name(mut toks: Vec<Tok>) -> Vec<Tok> {
    let mut n = 0;
    for t in &mut toks {
        if t.text == HOLE {
            t.text = ((b'a' + n % 5) as char).to_string();
            n += 1;
        }
    }
    toks
}

pub fn all(templates: &[&str]) -> Vec<Vec<Tok>> {
    templates.iter().map(|t| toks(t)).collect()
}

/// Every operator and construct
pub const PRODUCTIONS: &[&str] = &[
    "@@ + @@", "@@ |> @@", "@@ <- @@", "@@ = @@", "@@ ~ @@", "@@ == @@", "@@ ^ @@", "@@ : @@", "@@ ? @@", "@@ := @@",
    "@@ -> @@", "@@ && @@", "@@ %o% @@", "@@ * @@", "@@ <<- @@", "@@ ->> @@", "@@ - @@", "@@ / @@", "@@ ** @@", "@@ | @@",
    "@@ & @@", "@@ || @@", "@@ < @@", "@@ <= @@", "@@ > @@", "@@ >= @@", "@@ != @@",
    "- @@", "! @@", "~ @@", "? @@", "+ @@",
    "f ( )", "f ( @@ )", "f ( @@ , @@ )", "f ( x = @@ )", "f ( x = @@ , @@ )", "f ( , )", "f ( @@ , )", "f ( , @@ )",
    "f ( x = )", "f ( 'x' = @@ , ... = @@ , NULL = 1 )", "f ( @@ , @@ , @@ )", "f ( ... , ..1 )",
    "f ( @@ , function ( ) @@ )", "f ( function ( ) @@ , @@ )", "f ( \\ ( x ) @@ )", "f ( x = function ( ) { @@ } )",
    "f ( @@ , { @@ } )", "f ( { { @@ } } )", "f ( @@ ) ( @@ )", "f ( @@ ) $ g ( @@ )", "p :: f ( @@ )", "@@ ( @@ )",
    "@@ [ @@ ]", "@@ [ @@ , ]", "@@ [ , @@ ]", "@@ [ ]", "@@ [[ @@ ]]", "@@ [[ ]]", "@@ [ function ( ) { @@ } ]",
    "@@ $ b", "@@ @ b", "@@ $ 'b'", "@@ $ `b`", "p :: q", "p ::: q",
    "function ( ) @@", "function ( x , y = @@ ) @@", "\\ ( x ) @@", "function ( ... ) { @@ }", "function ( x = @@ ) { }",
    "if ( @@ ) @@", "if ( @@ ) @@ else @@", "if ( @@ ) { @@ } else { @@ }", "if ( @@ ) @@ else if ( @@ ) @@ else @@", "if ( @@ ) { @@ }",
    "for ( i in @@ ) @@", "for ( i in @@ ) { @@ }", "while ( @@ ) @@", "while ( @@ ) { @@ }", "repeat @@", "repeat { @@ }",
    "{ }", "{ @@ }", "{ @@ \\n @@ }", "{ @@ ; @@ }", "( @@ )", "{ @@ \\n @@ \\n @@ }",
    "next", "break", "TRUE", "NULL", "Inf", "NaN", "NA", "NA_integer_", "1L", "0x1Fi", "1e-3", "..1", "...", "`a b`",
    "'s'", "r\"(s)\"", "\"it's\"", "'\"'",
];

/// One of each kind of layout rule
pub const CORE: &[&str] = &[
    "@@ + @@", "@@ |> @@", "@@ <- @@", "@@ = @@", "@@ ~ @@", "@@ == @@", "@@ ^ @@", "@@ ? @@",
    "- @@", "~ @@",
    "f ( )", "f ( @@ )", "f ( @@ , @@ )", "f ( x = @@ )", "f ( , @@ )", "f ( x = )",
    "f ( @@ , function ( ) @@ )", "f ( function ( ) @@ , @@ )", "f ( { { @@ } } )", "@@ ( @@ )",
    "@@ [ @@ , ]", "@@ [[ @@ ]]", "@@ $ b",
    "function ( x , y = @@ ) @@", "\\ ( x ) @@", "function ( x ) { @@ }",
    "if ( @@ ) @@", "if ( @@ ) @@ else @@", "if ( @@ ) { @@ } else { @@ }",
    "for ( i in @@ ) @@", "while ( @@ ) { @@ }", "repeat @@",
    "{ }", "{ @@ \\n @@ }", "( @@ )", "1", "'s'",
];

/// Fewer still, for deep nesting
pub const SMALL: &[&str] = &[
    "@@ + @@", "@@ |> @@", "@@ <- @@", "@@ = @@", "@@ == @@", "~ @@", "f ( @@ )", "f ( @@ , x = @@ )", "f ( @@ , function ( ) @@ )",
    "@@ [[ @@ ]]", "@@ $ b", "function ( x = @@ ) @@", "if ( @@ ) @@ else @@", "for ( i in @@ ) @@",
    "{ @@ }", "{ @@ \\n @@ }", "( @@ )",
];

/// All fillings of one hole by each template
pub fn depth2(outer: &[&str], inner: &[&str], f: &mut dyn FnMut(Vec<Tok>)) {
    let inner = all(inner);
    for o in all(outer) {
        for i in 0..holes(&o) {
            for u in &inner {
                f(name(fill(&o, &[(i, u)])));
            }
        }
    }
}

/// All fillings of a pair of holes
pub fn pairs(outer: &[&str], inner: &[&str], f: &mut dyn FnMut(Vec<Tok>)) {
    let inner = all(inner);
    for o in all(outer) {
        let n = holes(&o);
        for i in 0..n {
            for j in i + 1..n {
                for u in &inner {
                    for v in &inner {
                        f(name(fill(&o, &[(i, u), (j, v)])));
                    }
                }
            }
        }
    }
}

pub fn depth3(a: &[&str], b: &[&str], c: &[&str], f: &mut dyn FnMut(Vec<Tok>)) {
    let (a, b, c) = (all(a), all(b), all(c));
    for x in &a {
        for i in 0..holes(x) {
            for y in &b {
                for j in 0..holes(y) {
                    for z in &c {
                        let inner = fill(y, &[(j, z)]);
                        f(name(fill(x, &[(i, &inner)])));
                    }
                }
            }
        }
    }
}

/// What may stand in a gap
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Gap {
    /// Nothing changed
    Same,
    Line,
    Blank,
    Blanks,
    /// After code, and the line goes on below
    Trailing,
    /// On a line of its own
    Own,
    /// On a line of its own between blank lines
    Apart,
    /// Both
    Two,
    Skip,
    Table,
    SkipFile,
    Semi,
    None,
    Wide,
}

impl Gap {
    fn push(self, newline: bool, n: &mut usize, edge: bool, out: &mut String) {
        *n += 1;
        match self {
            Gap::Same => out.push_str(if edge { "" } else if newline { "\n" } else { " " }),
            Gap::Line => out.push('\n'),
            Gap::Blank => out.push_str("\n\n"),
            Gap::Blanks => out.push_str("\n\n\n\n"),
            Gap::Trailing => out.push_str(&format!(" # c{n}\n")),
            Gap::Own => out.push_str(&format!("\n# c{n}\n")),
            Gap::Apart => out.push_str(&format!("\n\n\n# c{n}\n\n\n")),
            Gap::Two => out.push_str(&format!(" # c{n}\n\n  #c{n}b \n")),
            Gap::Skip => out.push_str("\n# fmt: skip\n"),
            Gap::Table => out.push_str("\n# fmt: table\n"),
            Gap::SkipFile => out.push_str("\n# fmt: skip file\n"),
            Gap::Semi => out.push(';'),
            Gap::None => {}
            Gap::Wide => out.push_str("  \t "),
        }
    }
}

/// The text with the given gaps: the one before the first token, and the one after each
pub fn render(toks: &[Tok], gaps: &[(usize, Gap)]) -> String {
    let gap = |i: usize| gaps.iter().find(|(j, _)| *j == i).map_or(Gap::Same, |(_, g)| *g);
    let mut out = String::new();
    let mut n = 0;
    gap(0).push(false, &mut n, true, &mut out);
    for (i, t) in toks.iter().enumerate() {
        out.push_str(&t.text);
        gap(i + 1).push(t.newline, &mut n, i + 1 == toks.len(), &mut out);
    }
    out
}

/// All ways to change at most `k` of the gaps, each to any of `kinds`
pub fn perturb(toks: &[Tok], k: usize, kinds: &[Gap], f: &mut dyn FnMut(&[(usize, Gap)])) {
    let mut chosen = Vec::new();
    perturb_from(toks, 0, k, kinds, &mut chosen, f);
}

fn perturb_from(
    toks: &[Tok],
    first: usize,
    k: usize,
    kinds: &[Gap],
    chosen: &mut Vec<(usize, Gap)>,
    f: &mut dyn FnMut(&[(usize, Gap)]),
) {
    f(chosen);
    if k == 0 {
        return;
    }
    for i in first..=toks.len() {
        for kind in kinds {
            chosen.push((i, *kind));
            perturb_from(toks, i + 1, k - 1, kinds, chosen, f);
            chosen.pop();
        }
    }
}

pub const TRIVIA: &[Gap] = &[Gap::Line, Gap::Blanks, Gap::Trailing, Gap::Own, Gap::Apart];
pub const ALL_TRIVIA: &[Gap] = &[Gap::Line, Gap::Blank, Gap::Blanks, Gap::Trailing, Gap::Own, Gap::Apart, Gap::Two];
