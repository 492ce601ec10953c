//! W05 which configurations are valid, and what they mean

use std::path::Path;

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use workspace::settings::Settings;

pub struct Toml;

pub const KEYS: [&str; 11] = [
    "line-width",
    "indent-width",
    "indent-style",
    "line-ending",
    "persistent-line-breaks",
    "assignment-style",
    "exclude",
    "default-exclude",
    "skip",
    "table",
    "default-table",
];

/// Values to try with every option
const VALUES: &[&str] = &[
    "-1", "0", "1", "2", "8", "24", "25", "80", "255", "256", "257", "280", "320", "321", "65535", "65536", "65537", "65616",
    "4294967376", "9223372036854775807", "-9223372036854775808", "8_0", "0x50", "0o30", "0b11", "+24", "-24", "1.0", "80.0", "8e1", "inf",
    "nan", "true", "false", "\"\"", "''", "\"80\"", "\"1\"", "\"true\"", "\"space\"", "'space'", "\"tab\"", "\"\"\"tab\"\"\"",
    "\"\\u0074ab\"", "\"Space\"", "\"TAB\"", "\"spaces\"", "\"tab \"", "\"auto\"", "\"lf\"", "\"crlf\"", "\"native\"", "\"cr\"",
    "\"LF\"", "\"\\n\"", "\"arrow\"", "\"equal\"", "\"preserve\"", "\"<-\"", "\"=\"", "\"Arrow\"", "\"respect\"", "\"ignore\"",
    "\"a\"", "[]", "[\"a\"]", "[\"b\", \"a\"]", "[\"a\", \"a\",]", "[ # comment\n\"a\",\n\n\"b\" ]", "[\"\"]", "[1]", "[\"a\", 1]", "[[\"a\"]]",
    "[\"a\", true]", "[\"!a\"]", "[\"a/\"]", "[\"/a\", \"# b\"]", "[\"[\"]", "[\"a\", \"[z-a]\"]", "[80]", "[true]", "{}", "{ a = 1 }",
    "1979-05-27", "07:32:00", "null", "auto", "tab", "", "\"a", "[\"a\"",
];

/// Two values for every option, neither of them the default
const GIVEN: [[&str; 2]; 11] = [
    ["1", "320"],
    ["1", "24"],
    ["\"tab\"", "\"space\""],
    ["\"lf\"", "\"crlf\""],
    ["false", "true"],
    ["\"equal\"", "\"preserve\""],
    ["[\"a.R\"]", "[\"b/\"]"],
    ["false", "true"],
    ["[\"f\"]", "[\"f\", \"tribble\"]"],
    ["[\"g\"]", "[\"fcase\", \"f\"]"],
    ["false", "true"],
];

/// Ways to write the same configuration
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Form {
    Table,
    Dotted,
    Inline,
    /// Comments and empty lines everywhere, CRLF, a quoted table name
    Loose,
    /// In the opposite order, without spaces
    Reversed,
}
use Form::*;
const FORMS: [Form; 5] = [Table, Dotted, Inline, Loose, Reversed];

#[derive(Clone, Serialize, Deserialize)]
pub enum Case {
    Options { options: Vec<(usize, String)>, form: Form },
    Document { text: String, valid: bool },
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Meaning {
    line_width: u16,
    indent_width: u8,
    tab: bool,
    /// Of a text with LF and with CRLF: is CRLF used?
    crlf: [bool; 2],
    respect: bool,
    assignment: &'static str,
    exclude: Vec<&'static str>,
    skip: Vec<&'static str>,
    table: Vec<&'static str>,
}

/// Paths to tell exclude patterns apart; directories end in a slash
const PATHS: [&str; 13] =
    ["a", "a/", "b", "b/", "a.R", "x/a.R", "b/x.R", "renv/", "renv/x.R", "cpp11.R", "x/import-standalone-y.R", "# b", "x/y.R"];
const NAMES: [&str; 7] = ["", "a", "b", "f", "g", "tribble", "fcase"];

impl Default for Meaning {
    fn default() -> Self {
        Meaning {
            line_width: 80,
            indent_width: 2,
            tab: false,
            crlf: [false, true],
            respect: true,
            assignment: "arrow",
            exclude: vec!["renv/", "renv/x.R", "cpp11.R", "x/import-standalone-y.R"],
            skip: vec![],
            table: vec!["tribble", "fcase"],
        }
    }
}

fn observed(settings: &Settings, root: &Path) -> Meaning {
    let format = &settings.format;
    let ending = |source: &str| biome_is_crlf(&format.to_format_options(source));
    Meaning {
        line_width: format.line_width.value(),
        indent_width: format.indent_width.value(),
        tab: matches!(format.indent_style, settings::IndentStyle::Tab),
        crlf: [ending("x\ny\n"), ending("x\r\ny\r\n")],
        respect: format.persistent_line_breaks.is_respect(),
        assignment: match format.assignment_style {
            settings::AssignmentStyle::Arrow => "arrow",
            settings::AssignmentStyle::Equal => "equal",
            settings::AssignmentStyle::Preserve => "preserve",
        },
        exclude: PATHS
            .into_iter()
            .filter(|p| {
                workspace::discovery::any_exclude_matched_path_or_any_parents(
                    root.join(p.trim_end_matches('/')),
                    p.ends_with('/'),
                    format.exclude.as_ref(),
                    format.default_exclude.as_ref(),
                )
                .is_some()
            })
            .collect(),
        skip: NAMES.into_iter().filter(|n| format.skip.as_ref().is_some_and(|s| s.contains(n))).collect(),
        table: NAMES.into_iter().filter(|n| format.table.as_ref().is_some_and(|s| s.contains(n))).collect(),
    }
}

fn biome_is_crlf(options: &air_r_formatter::context::RFormatOptions) -> bool {
    use biome_formatter::FormatOptions;
    options.as_print_options().line_ending.as_str() == "\r\n"
}

/// A list of plain strings
fn strings(value: &str) -> Option<Vec<String>> {
    let value: String = value.lines().map(|l| l.split("# comment").next().unwrap()).collect();
    let inner = value.trim().strip_prefix('[')?.strip_suffix(']')?.trim();
    let inner = inner.strip_suffix(',').unwrap_or(inner);
    if inner.is_empty() {
        return Some(vec![]);
    }
    inner.split(',').map(|s| Some(s.trim().strip_prefix('"')?.strip_suffix('"')?.to_string())).collect()
}

fn integer(value: &str) -> Option<i64> {
    Some(match value {
        "8_0" | "0x50" => 80,
        "0o30" | "+24" => 24,
        "0b11" => 3,
        "65616" => 65616,
        v => v.parse().ok()?,
    })
}

fn keyword(value: &str) -> Option<&str> {
    Some(match value {
        "'space'" => "space",
        "\"\"\"tab\"\"\"" | "\"\\u0074ab\"" => "tab",
        v => v.strip_prefix('"')?.strip_suffix('"')?,
    })
}

fn boolean(value: &str) -> Option<bool> {
    match value {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    }
}

/// `None` if the configuration is invalid
fn meaning(options: &[(usize, String)]) -> Option<Meaning> {
    let mut m = Meaning::default();
    let (mut exclude, mut default_exclude) = (vec![], true);
    let (mut table, mut default_table) = (vec![], true);
    for (n, (key, value)) in options.iter().enumerate() {
        if options[..n].iter().any(|(k, _)| k == key) {
            return None;
        }
        match KEYS[*key] {
            "line-width" => m.line_width = integer(value).filter(|n| (1..=320).contains(n))? as u16,
            "indent-width" => m.indent_width = integer(value).filter(|n| (1..=24).contains(n))? as u8,
            "indent-style" => {
                m.tab = match keyword(value)? {
                    "tab" => true,
                    "space" => false,
                    _ => return None,
                }
            }
            "line-ending" => {
                m.crlf = match keyword(value)? {
                    "auto" => [false, true],
                    "lf" | "native" => [false, false],
                    "crlf" => [true, true],
                    _ => return None,
                }
            }
            "persistent-line-breaks" => m.respect = boolean(value)?,
            "assignment-style" => {
                m.assignment = match keyword(value)? {
                    "arrow" => "arrow",
                    "equal" => "equal",
                    "preserve" => "preserve",
                    _ => return None,
                }
            }
            "exclude" => exclude = strings(value)?,
            "default-exclude" => default_exclude = boolean(value)?,
            "skip" => {
                let names = strings(value)?;
                m.skip = NAMES.into_iter().filter(|n| names.iter().any(|x| x == n)).collect();
            }
            "table" => table = strings(value)?,
            "default-table" => default_table = boolean(value)?,
            _ => unreachable!(),
        }
    }
    if exclude.iter().any(|p| p == "[" || p == "[z-a]") {
        return None;
    }
    let patterns: Vec<_> = exclude.iter().filter_map(|p| crate::gitignore::parse_pattern(p)).collect();
    let defaults = m.exclude.clone();
    m.exclude = PATHS
        .into_iter()
        .filter(|p| {
            let components: Vec<&str> = p.trim_end_matches('/').split('/').collect();
            crate::gitignore::decide_with_parents(&patterns, &components, p.ends_with('/'))
                || default_exclude && defaults.contains(p)
        })
        .collect();
    m.table = NAMES
        .into_iter()
        .filter(|n| table.iter().any(|x| x == n) || default_table && ["tribble", "fcase"].contains(n))
        .collect();
    Some(m)
}

/// `None` if it cannot be written that way
pub fn document(options: &[(usize, String)], form: Form) -> Option<String> {
    let pairs: Vec<(&str, &str)> = options.iter().map(|(k, v)| (KEYS[*k], v.as_str())).collect();
    Some(match form {
        Table => format!("[format]\n{}", pairs.iter().map(|(k, v)| format!("{k} = {v}\n")).collect::<String>()),
        Dotted => pairs.iter().map(|(k, v)| format!("format.{k} = {v}\n")).collect(),
        Inline => {
            // no comments and new lines inside
            if pairs.iter().any(|(_, v)| v.contains('\n') || v.contains('#')) {
                return None;
            }
            format!("format = {{ {} }}", pairs.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))
        }
        Loose => {
            let text: String = pairs.iter().map(|(k, v)| format!("\n  # {k} = 3\n\t\"{k}\"\t=   {v} # end \n\n")).collect();
            format!("# first\n\n [ \"format\" ] # table\n{text}# last").replace('\n', "\r\n")
        }
        Reversed => format!("[format]\n{}", pairs.iter().rev().map(|(k, v)| format!("{k}={v}\n")).collect::<String>()),
    })
}

const DOCUMENTS: &[(&str, bool)] = &[
    ("", true),
    ("\n", true),
    ("# only a comment", true),
    ("\u{feff}[format]\n", true),
    ("[format]", true),
    ("[format]\r\n", true),
    ("[ format ]\n", true),
    ("format = {}\n", true),
    ("[formatter]\n", false),
    ("[Format]\n", false),
    ("[lint]\n", false),
    ("[format]\n[lint]\nx = 1\n", false),
    ("[format.sub]\n", false),
    ("[format.exclude]\n", false),
    ("[format]\n[format]\n", false),
    ("[[format]]\n", false),
    ("[[format]]\nline-width = 80\n", false),
    ("[[format]]\nline-width = 80\n[[format]]\n", false),
    ("format = 1\n", false),
    ("format = true\n", false),
    ("format = \"space\"\n", false),
    ("format = []\n", false),
    ("format = [80]\n", false),
    ("format = [80, 2]\n", false),
    ("format\n", false),
    ("[format\n", false),
    ("format]\n", false),
    ("[format]\nline-width\n", false),
    ("[format]\nline-width = 80 indent-width = 2\n", false),
    ("[format]\nline-width: 80\n", false),
    ("global = 1\n[format]\n", false),
    ("line-width = 80\n", false),
    ("line-width = 80\n[format]\n", false),
    ("exclude = []\n", false),
    ("[format]\nline_width = 80\n", false),
    ("[format]\nlineWidth = 80\n", false),
    ("[format]\nlinewidth = 80\n", false),
    ("[format]\nLine-Width = 80\n", false),
    ("[format]\nline-widths = 80\n", false),
    ("[format]\nwidth = 80\n", false),
    ("[format]\nunknown = 1\n", false),
    ("[format]\nline-width = 80\nunknown = 1\n", false),
    ("[format]\nunknown = 1\nline-width = 80\n", false),
    ("[format]\n\"\" = 1\n", false),
    ("[format]\ninclude = []\n", false),
    ("[format]\ndefault-include = true\n", false),
    ("[format]\nexclude_default = true\n", false),
    ("[format]\nindent_style = \"tab\"\n", false),
    ("[format]\nformat = {}\n", false),
    ("[format]\nline-width.value = 80\n", false),
    ("[format]\nline-width = 80\n[format]\nindent-width = 2\n", false),
    ("[format]\nline-width = 80\nformat.indent-width = 2\n", false),
    ("format.line-width = 80\n[format]\nindent-width = 2\n", false),
    ("\u{0}", false),
    ("[format]\nskip = [\"\u{0}\"]\n", false),
    ("{}", false),
    ("{\"format\": {}}", false),
];

impl Check for Toml {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W05"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every option with every one of {} values in {} forms; every subset of the {} options with either of two values for each (3^{}); every invalid value of every option among all others valid; every pair of options with {}; {} documents with other mistakes",
            VALUES.len(),
            FORMS.len(),
            KEYS.len(),
            KEYS.len(),
            tier.pick("each of the values for one of them and two for the other", "all pairs of the values, in every form"),
            DOCUMENTS.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the TOML syntax itself is left to the toml crate".into()]
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        for (text, valid) in DOCUMENTS {
            emit(Case::Document { text: text.to_string(), valid: *valid });
        }
        for key in 0..KEYS.len() {
            for value in VALUES {
                for form in FORMS {
                    emit(Case::Options { options: vec![(key, value.to_string())], form });
                }
            }
        }
        // an option too many
        for key in 0..KEYS.len() {
            for unknown in ["unknown", "line-widths", "-", "format", "\"line-width \""] {
                let text = format!("[format]\n{} = {}\n{unknown} = 1\n", KEYS[key], GIVEN[key][0]);
                emit(Case::Document { text, valid: false });
                let text = format!("[format]\n{unknown} = {}\n", GIVEN[key][0]);
                emit(Case::Document { text, valid: false });
                let text = format!("{} = {}\n", KEYS[key], GIVEN[key][0]);
                emit(Case::Document { text, valid: false });
            }
        }
        mc::tuples(&[3; 11], &mut |given| {
            let options: Vec<(usize, String)> =
                (0..11).filter(|k| given[*k] > 0).map(|k| (k, GIVEN[k][given[k] - 1].to_string())).collect();
            emit(Case::Options { options, form: Table });
        });
        for key in 0..KEYS.len() {
            for value in VALUES {
                for among in 0..2 {
                    for at in [0, 5, 10] {
                        let mut options: Vec<(usize, String)> =
                            (0..11).filter(|k| *k != key).map(|k| (k, GIVEN[k][among].to_string())).collect();
                        options.insert(at, (key, value.to_string()));
                        emit(Case::Options { options, form: Table });
                    }
                }
                for other in 0..KEYS.len() {
                    // the same option twice, too
                    for second in GIVEN[other] {
                        emit(Case::Options { options: vec![(other, second.to_string()), (key, value.to_string())], form: Table });
                    }
                    if tier == Tier::Thorough {
                        for second in VALUES {
                            for form in FORMS {
                                emit(Case::Options { options: vec![(key, value.to_string()), (other, second.to_string())], form });
                            }
                        }
                    }
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let (text, want, key) = match case {
            Case::Options { options, form } => {
                let Some(text) = document(options, *form) else { return Ok(()) };
                let key = if options.len() == 1 { KEYS[options[0].0] } else { "" };
                (text, meaning(options), key)
            }
            Case::Document { text, valid } => (text.clone(), valid.then(Meaning::default), ""),
        };
        ctx.state(&text);
        ctx.step(1);
        let root = Path::new("/project");
        let got = workspace::toml::parse_air_inline_toml(&text)
            .map_err(|e| e.to_string())
            .and_then(|o| o.into_settings(root).map_err(|e| format!("{e:#}")));
        ctx.outcome(match (&want, key) {
            (None, _) => "invalid",
            (Some(m), _) if *m == Meaning::default() => "the defaults",
            _ => "valid",
        });
        match (&want, &got) {
            (Some(want), Ok(got)) => ensure_eq!(observed(got, root), *want, "{text:?}"),
            (None, Ok(got)) => return Err(format!("accepts {text:?} as {:?}", observed(got, root)).into()),
            (Some(_), Err(e)) => return Err(format!("rejects {text:?}: {e}").into()),
            (None, Err(e)) => ensure!(!e.is_empty(), "no reason for rejecting {text:?}"),
        }

        // from a file
        let small = !matches!(case, Case::Options { options, form } if options.len() != 1 || *form != Table);
        if small {
            let scratch = Scratch::new();
            let file = scratch.path().join("air.toml");
            std::fs::write(&file, &text).map_err(|e| e.to_string())?;
            let read = workspace::discovery::discover_settings(&[scratch.path()]);
            match (&want, read) {
                (Some(want), Ok(found)) => {
                    ensure_eq!(found.len(), 1, "configurations found for {text:?}");
                    ensure_eq!(found[0].directory, scratch.path(), "directory of {text:?}");
                    ensure_eq!(observed(&found[0].settings, scratch.path()), *want, "file with {text:?}");
                }
                (None, Ok(_)) => return Err(format!("accepts a file with {text:?}").into()),
                (Some(_), Err(e)) => return Err(format!("rejects a file with {text:?}: {e:#}").into()),
                (None, Err(e)) => {
                    let message = format!("{e:#}");
                    let named = if key == "exclude" && strings(&text["[format]\nexclude = ".len()..]).is_some() { "[" } else { key };
                    ensure!(message.contains(named), "the message about {text:?} does not name {named}: {message}");
                }
            }
        }
        Ok(())
    }
}
