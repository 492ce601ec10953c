//! The bounded spaces of programs and options.
use mc::Tier;
use serde::{Deserialize, Serialize};

use crate::r#gen::*;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    pub toks: Vec<Tok>,
    pub gaps: Vec<(usize, Gap)>,
    pub toml: String,
    /// Are line endings CRLF?
    pub crlf: bool,
}

impl Case {
    pub fn src(&self) -> String {
        let src = render(&self.toks, &self.gaps);
        if self.crlf { src.replace('\n', "\r\n") } else { src }
    }
    pub fn new(toks: &[Tok], gaps: &[(usize, Gap)], toml: &str) -> Case {
        Case { toks: toks.to_vec(), gaps: gaps.to_vec(), toml: toml.to_string(), crlf: false }
    }
    /// A text as it stands
    pub fn text(src: &str, toml: &str) -> Case {
        Case { toks: vec![Tok { text: src.to_string(), newline: false }], gaps: vec![], toml: toml.to_string(), crlf: false }
    }
}

type Emit<'a> = &'a mut dyn FnMut(Case);

/// Options of which each is far from the default in its own way
pub const WIDE: &[&str] = &[
    "",
    "line-width = 1",
    "line-width = 10",
    "persistent-line-breaks = false",
    "assignment-style = \"equal\"",
    "assignment-style = \"preserve\"\nindent-style = \"tab\"\nindent-width = 4",
];
pub const FEW: &[&str] = &["", "line-width = 8", "persistent-line-breaks = false\nassignment-style = \"equal\""];
pub const TWO: &[&str] = &["", "line-width = 8\npersistent-line-breaks = false"];

/// Every construct by itself, with up to `k` gaps changed
pub fn single(k: usize, kinds: &[Gap], options: &[&str], emit: Emit) {
    for p in all(PRODUCTIONS) {
        let p = name(p);
        perturb(&p, k, kinds, &mut |gaps| for o in options { emit(Case::new(&p, gaps, o)) });
    }
}

/// Every construct in every hole of every construct
pub fn nested(outer: &[&str], inner: &[&str], k: usize, kinds: &[Gap], options: &[&str], emit: Emit) {
    depth2(outer, inner, &mut |p| perturb(&p, k, kinds, &mut |gaps| for o in options { emit(Case::new(&p, gaps, o)) }));
}

/// Two levels of that
pub fn nested3(templates: &[&str], k: usize, kinds: &[Gap], options: &[&str], emit: Emit) {
    depth3(templates, templates, templates, &mut |p| perturb(&p, k, kinds, &mut |gaps| for o in options { emit(Case::new(&p, gaps, o)) }));
}

/// Every pair of holes filled at the same time
pub fn sided(outer: &[&str], inner: &[&str], options: &[&str], emit: Emit) {
    pairs(outer, inner, &mut |p| for o in options { emit(Case::new(&p, &[], o)) });
}

/// Every line width up to the one at which the program fits on a line
pub fn widths(outer: &[&str], inner: &[&str], rest: &[&str], emit: Emit) {
    depth2(outer, inner, &mut |p| {
        let flat: usize = p.iter().map(|t| t.text.len() + 1).sum();
        for width in 1..=flat {
            for r in rest {
                emit(Case::new(&p, &[], &format!("line-width = {width}\n{r}")));
            }
        }
    });
}

/// The product of all options
pub fn option_product(templates: &[&str], emit: Emit) {
    for p in all(templates) {
        let p = name(p);
        for width in ["", "line-width = 6\n", "line-width = 320\n"] {
            for indent in ["", "indent-width = 1\n", "indent-width = 24\n", "indent-style = \"tab\"\n", "indent-style = \"tab\"\nindent-width = 8\n"] {
                for assign in ["", "assignment-style = \"equal\"\n", "assignment-style = \"preserve\"\n"] {
                    for persist in ["", "persistent-line-breaks = false\n"] {
                        for ending in ["", "line-ending = \"lf\"\n", "line-ending = \"crlf\"\n", "line-ending = \"native\"\n"] {
                            for crlf in [false, true] {
                                let toml = format!("{width}{indent}{assign}{persist}{ending}");
                                perturb(&p, 1, &[Gap::Line, Gap::Trailing, Gap::Blanks], &mut |gaps| {
                                    emit(Case { crlf, ..Case::new(&p, gaps, &toml) })
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

/// String literals
pub fn literals(max: usize) -> Vec<String> {
    let mut out = Vec::new();
    for quote in ["\"", "'"] {
        mc::texts(&["a", "\"", "'", "\\\\", "\\\"", "\\'", "\\n", "\\x41", " ", "\n", "#", "é"], max, &mut |content| {
            // a quote of its own kind has to be escaped
            if escaped(&content, quote) {
                out.push(format!("{quote}{content}{quote}"));
            }
        });
        for prefix in ["r", "R"] {
            for dashes in ["", "-", "--"] {
                for (open, close) in [("(", ")"), ("[", "]"), ("{", "}")] {
                    mc::texts(&["a", "\"", "'", "\\", "\n", ")", "-", " ", "#"], max.min(3), &mut |content| {
                        let end = format!("{close}{dashes}{quote}");
                        let text = format!("{content}{end}");
                        if text.find(&end) == Some(content.len()) {
                            out.push(format!("{prefix}{quote}{dashes}{open}{content}{end}"));
                        }
                    });
                }
            }
        }
    }
    out
}

fn escaped(content: &str, quote: &str) -> bool {
    let mut chars = content.chars();
    while let Some(c) = chars.next() {
        if c == '\\' {
            chars.next();
        } else if quote.starts_with(c) {
            return false;
        }
    }
    true
}

/// String literals in every role that a string can have
pub fn strings(max: usize, options: &[&str], emit: Emit) {
    for s in literals(max) {
        for (before, after) in [("", ""), ("f(", ")"), ("f('x' = ", ", b)"), ("x <- ", "\n"), ("f(a, ", " = b)"), ("x$", ""), ("if (", ") b"), ("  ", " |> g()"), ("# fmt: skip\nf( ", " )")] {
            for o in options {
                for crlf in [false, true] {
                    let src = format!("{before}{s}{after}");
                    emit(Case { crlf, ..Case::text(&src, o) });
                }
            }
        }
    }
}

/// Numbers, names and operators in all their spellings
pub fn tokens(options: &[&str], emit: Emit) {
    for t in [
        "1", "1L", "1l", "1e5", "1E5", "1e+5", "1e-5L", "0x1F", "0X1f", "0x1FL", "0x1p3", "1i", "1.5i", ".5", "5.", "1.50", "00", "100000", "1e05", "0xabcDEF", "1e5i",
        "a", "a.b", ".a", "a_b", "..1", "..10", "...", "..a", "é", "`a b`", "`a\\`b`", "`if`", "`a\nb`", "T", "F", "function_", "if_", "Inf2", "TRUE_", "NULL.", "nextt",
        "TRUE", "FALSE", "NULL", "NA", "NaN", "Inf", "NA_integer_", "NA_real_", "NA_complex_", "NA_character_", "next", "break", "\u{1F600}",
    ] {
        for (before, after) in [("", ""), ("-", ""), ("f(", ")"), ("f(", "=1)"), ("x$", ""), ("p::", ""), ("", "[1]"), ("", "(1)"), ("!", "+1"), ("x=", ""), ("function(", ")1"), ("function(x=", ")1"), ("for(", " in 1)2"), ("a^", ""), ("", "$b"), ("x@", "")] {
            for o in options {
                for crlf in [false, true] {
                    emit(Case { crlf, ..Case::text(&format!("{before}{t}{after}"), o) });
                }
            }
        }
    }
    let operators = ["+", "-", "*", "/", "^", "**", ":", "==", "!=", "<", ">", "<=", ">=", "&", "&&", "|", "||", "~", "<-", "<<-", "->", "->>", "=", ":=", "?", "|>", "%%", "%in%", "%+ #%", "%'%", "$", "@", "::", ":::"];
    // each pair of operators, with and without parentheses and signs
    for p in operators {
        for q in operators {
            for shape in ["a P b Q c", "(a P b) Q c", "a P (b Q c)", "-a P b Q c", "a P -b Q c", "!a P b Q c", "a P !b Q c", "~a P b Q c", "a P ?b Q c", "aPbQc", "a P\nb Q\nc", "f(a P b Q c)", "a P function(x) b Q c", "a P if (b) c Q d"] {
                for o in options {
                    emit(Case::text(&shape.replace('P', p).replace('Q', q), o));
                }
            }
        }
    }
}

/// Rows of statements, separated in every way
pub fn statements(max: usize, options: &[&str], emit: Emit) {
    for (before, after) in [("", ""), ("{", "}"), ("f(\\(x) {", "})"), ("if (a) {", "} else {b}"), ("function() {\n", "\n}"), ("", "\n\n")] {
        mc::texts(&["a", "b = 1", ";", "\n", " ", "# c1\n", "{}", "\t"], max, &mut |body| {
            for o in options {
                emit(Case::text(&format!("{before}{body}{after}"), o));
            }
        });
    }
}

/// Directives between any two tokens
pub fn directives(outer: &[&str], inner: &[&str], options: &[&str], emit: Emit) {
    depth2(outer, inner, &mut |p| {
        perturb(&p, 1, &[Gap::Skip, Gap::Table, Gap::SkipFile], &mut |gaps| {
            for o in options {
                emit(Case::new(&p, gaps, o));
            }
        });
        // a directive and another change
        for i in 0..=p.len() {
            for j in i + 1..=p.len() {
                for kind in [Gap::Skip, Gap::Table] {
                    for other in [Gap::Line, Gap::Trailing] {
                        for o in options {
                            emit(Case::new(&p, &[(i, kind), (j, other)], o));
                        }
                    }
                }
            }
        }
    });
}

/// What F01 to F05 are decided on
pub fn programs(tier: Tier, emit: Emit) {
    let thorough = tier == Tier::Thorough;
    let lists = &["skip = [\"f\"]", "table = [\"f\"]"];
    tokens(TWO, emit);
    crate::table::pairs(&mut |src, toml, _| emit(Case::text(&src, toml)));
    statements(tier.pick(5, 6), TWO, emit);
    strings(tier.pick(3, 4), &[""], emit);
    single(2, ALL_TRIVIA, WIDE, emit);
    option_product(SMALL, emit);
    widths(CORE, CORE, &["", "persistent-line-breaks = false"], emit);
    sided(CORE, CORE, TWO, emit);
    directives(CORE, SMALL, &[""], emit);
    nested(CORE, CORE, 1, TRIVIA, lists, emit);
    nested(PRODUCTIONS, PRODUCTIONS, 1, tier.pick(&[Gap::Line, Gap::Trailing, Gap::Own], ALL_TRIVIA), tier.pick(TWO, FEW), emit);
    nested(SMALL, SMALL, 2, &[Gap::Line, Gap::Blanks, Gap::Trailing, Gap::Own], TWO, emit);
    nested3(CORE, 0, TRIVIA, TWO, emit);
    if thorough {
        single(3, ALL_TRIVIA, WIDE, emit);
        nested(CORE, CORE, 2, TRIVIA, FEW, emit);
        nested3(SMALL, 1, TRIVIA, FEW, emit);
        sided(PRODUCTIONS, PRODUCTIONS, TWO, emit);
        directives(PRODUCTIONS, CORE, TWO, emit);
        widths(PRODUCTIONS, PRODUCTIONS, &["", "persistent-line-breaks = false"], emit);
    }
}

pub fn describe(tier: Tier) -> String {
    tier.pick(
        "R programs: every pair of 105 constructs nested in each other with up to 1 gap between tokens changed (line break, comment at the end of a line, comment on its own line); every construct by itself with up to 2 gaps changed in 7 ways under 6 option sets; all triples of 37 constructs nested in each other; 17 x 17 constructs with up to 2 changed gaps; all pairs of fillings of two holes; every line width from 1 to the width of the program; the product of all options; all string literals of up to 3 characters (12 of them, plain and raw, in 9 roles, LF and CRLF); all pairs of 34 operators in 14 shapes; 51 spellings of numbers and names in 16 roles; all rows of up to 5 statements and separators in 6 blocks; directives in every gap; functions on the skip and table lists; tables of all pairs of 43 cells",
        "as quick, with 3 changed gaps in single constructs, 2 in all pairs of 37 constructs, 1 in all triples of 17 constructs, all pairs of fillings for 105 constructs, strings of up to 4 and rows of up to 6 items, directives and line widths in all pairs of 105 constructs",
    )
    .to_string()
}
