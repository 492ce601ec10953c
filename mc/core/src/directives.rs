//! D01: comment directives
//!
//! Words over tokens from which directives and their near misses are made, judged by a
//! hand-written automaton.

use comments::{parse_comment_directive, parse_special_skip_file, Directive, FormatDirective};
use mc::{ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case(String);

const TOKENS: &[&str] = &[
    "#", " ", "fmt", ":", "skip", "file", "table", "\t", "x", "lint", "Generated by", "#' ",
];
/// Single characters, for everything near a directive at the level of characters
const TEMPLATES: &[&str] = &[
    "# fmt: skip",
    "#fmt:skip",
    "# fmt: skip file",
    "# fmt: table",
    "## fmt:  skip  ",
    "# Generated by roxygen2: do not edit by hand",
    "# Generated by",
    "# generated by cpp11",
    "# fmt: skip: file",
    "# lint: skip",
];
const EDITS: &[&str] = &[
    "", "#", " ", "\t", ":", "x", "S", "F", "k", "!", "-", "\u{a0}", "é", "0", "'", ".", "  ", "\"", "f", "t",
];

#[derive(Debug, PartialEq, Clone, Copy, Hash)]
enum Kind {
    Skip,
    SkipFile,
    Table,
}

/// `#`+ blank* "fmt" ":" blank* command blank*, then the end
fn reference(text: &str) -> Option<Kind> {
    let chars: Vec<char> = text.chars().collect();
    let mut i = 0;
    if chars.get(i) != Some(&'#') {
        return None;
    }
    while chars.get(i) == Some(&'#') {
        i += 1;
    }
    while chars.get(i).is_some_and(|c| c.is_whitespace()) {
        i += 1;
    }
    for want in "fmt:".chars() {
        if chars.get(i) != Some(&want) {
            return None;
        }
        i += 1;
    }
    while chars.get(i).is_some_and(|c| c.is_whitespace()) {
        i += 1;
    }
    let mut end = chars.len();
    while end > i && chars[end - 1].is_whitespace() {
        end -= 1;
    }
    let command: String = chars[i..end].iter().collect();
    match command.as_str() {
        "skip" => Some(Kind::Skip),
        "skip file" => Some(Kind::SkipFile),
        "table" => Some(Kind::Table),
        _ => None,
    }
}

fn reference_generated(text: &str) -> bool {
    let mut chars = text.chars().peekable();
    if chars.peek() != Some(&'#') {
        return false;
    }
    while chars.peek() == Some(&'#') {
        chars.next();
    }
    while chars.peek().is_some_and(|c| c.is_whitespace()) {
        chars.next();
    }
    "Generated by".chars().all(|want| chars.next() == Some(want))
}

pub struct Directives;

impl Check for Directives {
    type Case = Case;
    fn id(&self) -> &'static str {
        "D01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all words up to length {} over {} tokens of directives; every character (about 700, of every width) once and twice in every place of {} lines; up to {} hashes and blanks of several kinds in every place; all ways to write in small and capital letters; all single and double character edits (delete, insert or replace by {} texts) of {} lines",
            tier.pick(5, 7),
            TOKENS.len(),
            TEMPLATES.len(),
            65537,
            EDITS.len(),
            TEMPLATES.len()
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        mc::texts(TOKENS, tier.pick(5, 7), &mut |text| emit(Case(text)));
        // Every character in every place
        for c in mc::characters() {
            for template in TEMPLATES {
                let chars: Vec<char> = template.chars().collect();
                for i in 0..=chars.len() {
                    let before: String = chars[..i].iter().collect();
                    let after: String = chars[i..].iter().collect();
                    emit(Case(format!("{before}{c}{after}")));
                    emit(Case(format!("{before}{c}{c}{after}")));
                    if i < chars.len() {
                        let after: String = chars[i + 1..].iter().collect();
                        emit(Case(format!("{before}{c}{after}")));
                    }
                }
            }
        }
        // Every amount of hashes and blanks, everywhere
        for n in (0..=tier.pick(300, 1100)).chain([4095, 4096, 4097, 65535, 65536, 65537]) {
            for (hash, blank) in [("#", " "), ("#", "\t"), ("#", " \t"), ("#", "\u{3000}")] {
                let (hashes, blanks) = (hash.repeat(n.max(1)), blank.repeat(n));
                for command in ["skip", "skip file", "table", "skip  file", "skipx", "x"] {
                    emit(Case(format!("{hashes} fmt: {command}")));
                    emit(Case(format!("#{blanks}fmt: {command}")));
                    emit(Case(format!("#fmt:{blanks}{command}")));
                    emit(Case(format!("# fmt: {command}{blanks}")));
                    emit(Case(format!("#{blanks}fmt:{blanks}{command}{blanks}")));
                    emit(Case(format!("# fmt{blanks}: {command}")));
                    emit(Case(format!("# {}fmt: {command}", "x".repeat(n))));
                    emit(Case(format!("# fmt: {command}{}", "x".repeat(n))));
                    emit(Case(format!("# fmt: {command}{blanks}x")));
                }
                emit(Case(format!("# fmt: skip{blanks}file")));
                emit(Case(format!("{hashes}{blanks}Generated by")));
                emit(Case(format!("# Generated{blanks}by")));
                emit(Case(format!("# Generated by{}", "x".repeat(n))));
            }
        }
        // All ways to write in small and capital letters
        for text in ["fmt: skip", "fmt: table", "fmt: skip file", "Generated by"] {
            for mask in 0..1u32 << text.len() {
                let text: String = text
                    .char_indices()
                    .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect();
                emit(Case(format!("# {text}")));
            }
        }
        // `fmt:` already there, to get deeper into the command
        for prefix in ["# fmt:", "#fmt: ", "## fmt:"] {
            mc::texts(TOKENS, tier.pick(4, 5), &mut |text| emit(Case(format!("{prefix}{text}"))));
        }
        for template in TEMPLATES {
            let chars: Vec<String> = template.chars().map(|c| c.to_string()).collect();
            let n = chars.len();
            let double = tier == Tier::Thorough || n <= 12;
            for i in 0..=n {
                for e in EDITS {
                    for replace in [false, true] {
                        if replace && i == n {
                            continue;
                        }
                        let mut one = chars.clone();
                        if replace {
                            one[i] = e.to_string();
                        } else {
                            one.insert(i, e.to_string());
                        }
                        emit(Case(one.concat()));
                        if !double {
                            continue;
                        }
                        for j in i + 1..=one.len() {
                            for e in EDITS {
                                let mut two = one.clone();
                                two.insert(j, e.to_string());
                                emit(Case(two.concat()));
                                if j < one.len() {
                                    let mut two = one.clone();
                                    two[j] = e.to_string();
                                    emit(Case(two.concat()));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let text = case.0.as_str();
        let got = parse_comment_directive(text).map(|directive| match directive {
            Directive::Format(FormatDirective::Skip) => Kind::Skip,
            Directive::Format(FormatDirective::SkipFile) => Kind::SkipFile,
            Directive::Format(FormatDirective::Table) => Kind::Table,
        });
        let want = reference(text);
        ensure_eq!(got, want, "directive in {text:?}");
        let generated = match parse_special_skip_file(text) {
            None => false,
            Some(Directive::Format(FormatDirective::SkipFile)) => true,
            Some(other) => return Err(format!("{text:?} marks generated code as {other:?}").into()),
        };
        ensure_eq!(generated, reference_generated(text), "generated code marker in {text:?}");
        ctx.step(text.chars().count() as u64);
        ctx.state(&(want, generated, text.starts_with('#'), text.contains("fmt"), text.contains(':')));
        ctx.outcome(match (want, generated) {
            (Some(Kind::Skip), _) => "skip",
            (Some(Kind::SkipFile), _) => "skip file",
            (Some(Kind::Table), _) => "table",
            (None, true) => "generated",
            (None, false) => "none",
        });
        Ok(())
    }
}
