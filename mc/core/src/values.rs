//! W06: option values; W07: lists of function names

use std::collections::BTreeSet;
use std::num::{NonZeroU16, NonZeroU8};
use std::str::FromStr;

use mc::{ensure, ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};
use settings::{AssignmentStyle, IndentStyle, IndentWidth, LineWidth, PersistentLineBreaks, Skip, Table};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    LineWidth(u16),
    IndentWidth(usize),
    /// An integer literal in a configuration file
    Literal(String),
    Keyword(String),
    Defaults,
}

pub struct Values;

#[derive(Deserialize)]
#[serde(rename_all = "kebab-case")]
struct Options {
    line_width: Option<LineWidth>,
    indent_width: Option<IndentWidth>,
    indent_style: Option<IndentStyle>,
    assignment_style: Option<AssignmentStyle>,
}

fn parse(text: &str) -> Result<Options, String> {
    toml::from_str(text).map_err(|e| e.to_string())
}

const KEYWORDS: &[&str] = &["tab", "space", "arrow", "equal", "preserve", "respect", "ignore"];
const LETTERS: &[&str] = &["", "a", "e", "s", "t", "T", "S", " ", "-", "_", "é", "b"];

impl Check for Values {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W06"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("all 65536 line widths and all indent widths up to {} by conversion and as configuration text; negative, fractional, quoted and over-long literals; all keywords of the 4 keyword options and all texts one edit ({} texts) away from them, in all mixtures of small and capital letters, with every character (about 700) in front, behind and in place of each letter, all beginnings and ends, and all pairs of keywords", tier.pick(70_000, 200_000), LETTERS.len())
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        emit(Case::Defaults);
        for value in 0..=u16::MAX {
            emit(Case::LineWidth(value));
        }
        for value in 0..=tier.pick(70_000, 200_000) {
            emit(Case::IndentWidth(value));
        }
        for shift in 8..64 {
            for delta in [-2i64, -1, 0, 1, 2, 24, 25, 80] {
                emit(Case::IndentWidth((1usize << shift).wrapping_add_signed(delta as isize)));
            }
        }
        emit(Case::IndentWidth(usize::MAX));
        for literal in [
            "-1", "-0", "+1", "+80", "0", "00", "1.0", "80.0", "1e2", "0x10", "0b1", "0o7", "1_0", "\"80\"", "true", "[80]", "{}",
            "65536", "65537", "65616", "4294967296", "4294967297", "4294967376", "9223372036854775807", "9223372036854775808",
            "18446744073709551617", "257", "256", "258", "320", "321", "24", "25", "-80", "-65456", "-255", "nan", "inf", "",
        ] {
            emit(Case::Literal(literal.to_string()));
        }
        let mut seen = BTreeSet::new();
        for keyword in KEYWORDS {
            seen.insert(keyword.to_string());
            seen.insert(keyword.to_uppercase());
            seen.insert(format!("{}{}", keyword[..1].to_uppercase(), &keyword[1..]));
            for i in 0..=keyword.len() {
                for letter in LETTERS {
                    seen.insert(format!("{}{letter}{}", &keyword[..i], &keyword[i..]));
                    if i < keyword.len() {
                        seen.insert(format!("{}{letter}{}", &keyword[..i], &keyword[i + 1..]));
                    }
                }
            }
        }
        for keyword in KEYWORDS {
            for mask in 0..1u32 << keyword.len() {
                seen.insert(keyword.char_indices().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect());
            }
            for c in mc::characters() {
                seen.insert(format!("{c}{keyword}"));
                seen.insert(format!("{keyword}{c}"));
                for (i, _) in keyword.char_indices() {
                    seen.insert(format!("{}{c}{}", &keyword[..i], &keyword[i + 1..]));
                }
            }
            for length in 1..keyword.len() {
                seen.insert(keyword[..length].to_string());
                seen.insert(keyword[length..].to_string());
            }
            for other in KEYWORDS {
                seen.insert(format!("{keyword}{other}"));
            }
        }
        for other in ["", "spaces", "tabs", "arrows", "equals", "none", "true", "false", "0", "<-", "=", "auto", "lf", "crlf"] {
            seen.insert(other.to_string());
        }
        for text in seen {
            emit(Case::Keyword(text));
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        ctx.step(1);
        match case {
            Case::Defaults => {
                ensure_eq!(LineWidth::default().value(), 80, "default line width");
                ensure_eq!(IndentWidth::default().value(), 2, "default indent width");
                ensure_eq!(IndentStyle::default(), IndentStyle::Space, "default indent style");
                ensure_eq!(AssignmentStyle::default(), AssignmentStyle::Arrow, "default assignment style");
                ensure_eq!(PersistentLineBreaks::default(), PersistentLineBreaks::Respect, "default for persistent line breaks");
                ctx.state(&"defaults");
            }
            Case::LineWidth(value) => {
                let value = *value;
                let valid = (1..=320).contains(&value);
                ctx.outcome(if valid { "line width accepted" } else { "line width rejected" });
                ctx.state(&("width", valid, value.min(321)));
                let check = |got: Option<LineWidth>, how: &str| -> Result<(), String> {
                    match (got, valid) {
                        (None, false) => Ok(()),
                        (None, true) => Err(format!("line width {value} is rejected by {how}")),
                        (Some(_), false) => Err(format!("line width {value} is accepted by {how}")),
                        (Some(width), true) => {
                            let shown = (width.to_string(), format!("{width:?}"));
                            let text = value.to_string();
                            if width.value() != value
                                || u16::from(width) != value
                                || NonZeroU16::from(width).get() != value
                                || shown != (text.clone(), text)
                                || serde_json::to_string(&width).ok() != Some(value.to_string())
                            {
                                return Err(format!("line width {value} given by {how} is reported as {width:?}"));
                            }
                            Ok(())
                        }
                    }
                };
                check(LineWidth::try_from(value).ok(), "conversion")?;
                if let Some(nonzero) = NonZeroU16::new(value) {
                    check(LineWidth::try_from(nonzero).ok(), "conversion of a non-zero number")?;
                }
                check(serde_json::from_str(&value.to_string()).ok(), "deserialisation")?;
                check(
                    parse(&format!("line-width = {value}")).ok().map(|o| o.line_width.expect("is present")),
                    "configuration",
                )?;
                if let Err(error) = LineWidth::try_from(value) {
                    ensure!(error.to_string().contains(&value.to_string()), "the error does not name {value}: {error}");
                    ensure!(error.to_string().contains("320"), "the error does not name the maximum: {error}");
                }
            }
            Case::IndentWidth(value) => {
                let value = *value;
                let valid = (1..=24).contains(&value);
                ctx.outcome(if valid { "indent width accepted" } else { "indent width rejected" });
                ctx.state(&("indent", valid, value.min(25)));
                let check = |got: Option<IndentWidth>, how: &str| -> Result<(), String> {
                    match (got, valid) {
                        (None, false) => Ok(()),
                        (None, true) => Err(format!("indent width {value} is rejected by {how}")),
                        (Some(_), false) => Err(format!("indent width {value} is accepted by {how}")),
                        (Some(width), true) => {
                            let text = value.to_string();
                            if width.value() as usize != value
                                || u8::from(width) as usize != value
                                || NonZeroU8::from(width).get() as usize != value
                                || (width.to_string(), format!("{width:?}")) != (text.clone(), text)
                                || serde_json::to_string(&width).ok() != Some(value.to_string())
                            {
                                return Err(format!("indent width {value} given by {how} is reported as {width:?}"));
                            }
                            Ok(())
                        }
                    }
                };
                check(IndentWidth::try_from(value).ok(), "conversion")?;
                if let Ok(small) = u8::try_from(value) {
                    check(IndentWidth::try_from(small).ok(), "conversion of a byte")?;
                    if let Some(nonzero) = NonZeroU8::new(small) {
                        check(IndentWidth::try_from(nonzero).ok(), "conversion of a non-zero byte")?;
                    }
                }
                check(serde_json::from_str(&value.to_string()).ok(), "deserialisation")?;
                check(
                    parse(&format!("indent-width = {value}")).ok().map(|o| o.indent_width.expect("is present")),
                    "configuration",
                )?;
                if let Err(error) = IndentWidth::try_from(value) {
                    ensure!(error.to_string().contains(&value.to_string()), "the error does not name {value}: {error}");
                    ensure!(error.to_string().contains("24"), "the error does not name the maximum: {error}");
                }
            }
            Case::Literal(literal) => {
                // The integer the literal denotes in TOML, if it is one
                let digits = literal.trim_start_matches(['+', '-']);
                let integer: Option<i128> = if let Some(hex) = literal.strip_prefix("0x") {
                    i128::from_str_radix(hex, 16).ok()
                } else if let Some(octal) = literal.strip_prefix("0o") {
                    i128::from_str_radix(octal, 8).ok()
                } else if let Some(binary) = literal.strip_prefix("0b") {
                    i128::from_str_radix(binary, 2).ok()
                } else if digits.len() > 1 && digits.starts_with('0') {
                    None
                } else {
                    literal.replace('_', "").parse().ok()
                };
                let width = parse(&format!("line-width = {literal}")).ok().map(|o| o.line_width.expect("is present"));
                let want = integer.filter(|v| (1..=320).contains(v));
                ensure_eq!(width.map(|w| w.value() as i128), want, "line-width = {literal}");
                let width = parse(&format!("indent-width = {literal}")).ok().map(|o| o.indent_width.expect("is present"));
                let want = integer.filter(|v| (1..=24).contains(v));
                ensure_eq!(width.map(|w| w.value() as i128), want, "indent-width = {literal}");
                ctx.outcome(if want.is_some() { "literal accepted" } else { "literal rejected" });
                ctx.state(&("literal", literal));
            }
            Case::Keyword(text) => {
                let quoted = toml::Value::String(text.clone()).to_string();
                let style = match text.as_str() {
                    "tab" => Some(IndentStyle::Tab),
                    "space" => Some(IndentStyle::Space),
                    _ => None,
                };
                ensure_eq!(IndentStyle::from_str(text).ok(), style, "indent style {text:?}");
                let parsed = parse(&format!("indent-style = {quoted}")).ok().map(|o| o.indent_style.expect("is present"));
                ensure_eq!(parsed, style, "indent-style = {quoted}");
                if let Some(style) = style {
                    ensure_eq!((style.is_tab(), style.is_space()), (text == "tab", text == "space"), "indent style {text:?}");
                    ensure_eq!(style.to_string().to_lowercase(), *text, "display of indent style");
                }
                let assignment = match text.as_str() {
                    "arrow" => Some(AssignmentStyle::Arrow),
                    "equal" => Some(AssignmentStyle::Equal),
                    "preserve" => Some(AssignmentStyle::Preserve),
                    _ => None,
                };
                ensure_eq!(AssignmentStyle::from_str(text).ok(), assignment, "assignment style {text:?}");
                let parsed = parse(&format!("assignment-style = {quoted}")).ok().map(|o| o.assignment_style.expect("is present"));
                ensure_eq!(parsed, assignment, "assignment-style = {quoted}");
                if let Some(assignment) = assignment {
                    ensure_eq!(assignment.to_string().to_lowercase(), *text, "display of assignment style");
                }
                let breaks = match text.as_str() {
                    "respect" => Some(PersistentLineBreaks::Respect),
                    "ignore" => Some(PersistentLineBreaks::Ignore),
                    _ => None,
                };
                ensure_eq!(PersistentLineBreaks::from_str(text).ok(), breaks, "persistent line breaks {text:?}");
                if let Some(breaks) = breaks {
                    ensure_eq!((breaks.is_respect(), breaks.is_ignore()), (text == "respect", text == "ignore"), "persistent line breaks {text:?}");
                }
                ctx.outcome(match (style, assignment, breaks) {
                    (None, None, None) => "keyword rejected",
                    _ => "keyword accepted",
                });
                ctx.state(&("keyword", text));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------

/// Names that are prefixes of each other, differ in case, and sort differently as bytes
/// and as words
const NAMES: &[&str] = &["b", "a", "ab", "B", "a.b", "é", ""];
const QUERIES: &[&str] = &["a", "b", "ab", "B", "a.b", "é", "", "A", "c", "abc", "a,", "b, a", "e"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Names {
    names: Vec<String>,
    other: Vec<String>,
}

pub struct Lists;

#[derive(Deserialize)]
struct ListOptions {
    skip: Option<Skip>,
    table: Option<Table>,
}

impl Check for Lists {
    type Case = Names;
    fn id(&self) -> &'static str {
        "W07"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all lists of up to {} of {} names in every order and with duplicates; all pairs of lists up to length {} for merging; {} queried names; lists of 6..{} names in {} orders; every character (about 700) in names; names of up to 65536 characters",
            tier.pick(5, 6), NAMES.len(), tier.pick(2, 3), QUERIES.len(), tier.pick(270, 1100), 4
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Names)) {
        let list = |word: &[usize]| -> Vec<String> { word.iter().map(|i| NAMES[*i].to_string()).collect() };
        mc::words(NAMES.len(), tier.pick(5, 6), &mut |word| {
            emit(Names { names: list(word), other: Vec::new() });
        });
        let max = tier.pick(2, 3);
        mc::words(NAMES.len(), max, &mut |one| {
            mc::words(NAMES.len(), max, &mut |two| {
                emit(Names { names: list(one), other: list(two) });
            });
        });
        // Every character in names
        for c in mc::characters() {
            let names = [format!("{c}"), "a".to_string(), format!("a{c}"), format!("{c}a"), format!("a{c}b"), "ab".to_string()];
            for rotate in 0..names.len() {
                let mut names = names.to_vec();
                names.rotate_left(rotate);
                emit(Names { other: names[3..].to_vec(), names: names.clone() });
                emit(Names { other: names[..2].to_vec(), names: names[2..].to_vec() });
            }
        }
        // Names of every length
        for length in (1..=tier.pick(300, 1100)).chain([4095, 4096, 4097, 65536]) {
            let name = "n".repeat(length);
            let names = vec![format!("{name}b"), name.clone(), format!("{name}a"), name[1..].to_string()];
            emit(Names { other: vec![format!("{name}a"), format!("{name}c")], names });
        }
        // Long lists: other paths of sorting and searching
        for n in 6..=tier.pick(270, 1100usize) {
            let base: Vec<String> = (0..n).map(|i| format!("f{}", (i * 37) % n)).collect();
            let mut sorted = base.clone();
            sorted.sort();
            let mut reversed = sorted.clone();
            reversed.reverse();
            let mut halves = sorted[n / 2..].to_vec();
            halves.extend_from_slice(&sorted[..n / 2]);
            for names in [base, sorted.clone(), reversed, halves] {
                emit(Names { names, other: sorted[..n / 3].to_vec() });
            }
        }
    }
    fn judge(&self, case: &Names, ctx: &mut Ctx) -> Verdict {
        // TOML wants the delete character escaped, JSON does not
        let json = serde_json::to_string(&case.names).unwrap().replace('\u{7f}', "\\u007f");
        let set: BTreeSet<&str> = case.names.iter().map(|s| s.as_str()).collect();
        let other: BTreeSet<&str> = case.other.iter().map(|s| s.as_str()).collect();
        let built = Table::new(case.names.clone());
        let config = format!("skip = {json}\ntable = {json}\n");
        let options: ListOptions = toml::from_str(&config).map_err(|e| format!("{config}: {e}"))?;
        let skip = options.skip.ok_or("skip is absent")?;
        let table = options.table.ok_or("table is absent")?;
        ensure_eq!(built, table, "list built from values and from configuration");
        let second = Table::new(case.other.clone());
        let merged = table.merge(&second);
        let merged_back = second.merge(&table);

        let mut queries: Vec<&str> = QUERIES.to_vec();
        queries.extend(case.names.iter().map(|s| s.as_str()));
        queries.extend(["f", "f1", "f69", "f70", "f00", "f269", "f270"]);
        queries.extend(case.other.iter().map(|s| s.as_str()));
        for query in queries {
            ensure_eq!(skip.contains(query), set.contains(query), "skip list {json} contains {query:?}");
            ensure_eq!(table.contains(query), set.contains(query), "table list {json} contains {query:?}");
            let both = set.contains(query) || other.contains(query);
            ensure_eq!(merged.contains(query), both, "{json} merged with {:?} contains {query:?}", case.other);
            ensure_eq!(merged_back.contains(query), both, "{:?} merged with {json} contains {query:?}", case.other);
            ctx.step(4);
        }
        let got: BTreeSet<&str> = table.as_slice().iter().map(|s| s.as_str()).collect();
        ensure_eq!(got, set, "names in the table list");
        let got: BTreeSet<&str> = merged.as_slice().iter().map(|s| s.as_str()).collect();
        let both: BTreeSet<&str> = set.union(&other).copied().collect();
        ensure_eq!(got, both, "names in the merged list");

        // Order makes no difference, to equality or display
        let mut sorted = case.names.clone();
        sorted.sort();
        let mut rotated = case.names.clone();
        let by = usize::from(rotated.len() > 1);
        rotated.rotate_left(by);
        let mut reversed = case.names.clone();
        reversed.reverse();
        for order in [sorted, rotated, reversed] {
            let same = Table::new(order.clone());
            ensure_eq!(same, table, "lists written as {:?} and {order:?}", case.names);
            ensure_eq!(same.to_string(), table.to_string(), "display of lists written as {:?} and {order:?}", case.names);
            let json = serde_json::to_string(&order).unwrap();
            let same: Skip = serde_json::from_str(&json).map_err(|e| e.to_string())?;
            ensure_eq!(same, skip, "skip lists written as {:?} and {order:?}", case.names);
            ensure_eq!(same.to_string(), skip.to_string(), "display of skip lists");
        }
        let defaults: BTreeSet<&str> = wsmods::settings::DEFAULT_TABLE.as_slice().iter().map(|s| s.as_str()).collect();
        ensure_eq!(defaults, BTreeSet::from(["tribble", "fcase"]), "default table list");
        ensure_eq!(skip.to_string(), table.to_string(), "display of skip and table list");
        // What is shown is the names
        if case.names.iter().all(|n| !n.is_empty() && !n.contains([',', ' '])) {
            let shown = table.to_string();
            let shown: BTreeSet<&str> = shown.split(", ").filter(|s| !s.is_empty()).collect();
            ensure_eq!(shown, set, "names shown for {json}");
        }
        ctx.state(&(&set, &other));
        ctx.outcome(&format!("{} distinct names", set.len().min(8)));
        Ok(())
    }
}
