//! W03: exclude patterns; W04: default patterns
//!
//! The reference is in `gitignore.rs`.

use std::path::Path;

use mc::{ensure, ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};
use wsmods::access;

use crate::gitignore::*;

// ---------------------------------------------------------------------------------------
// W03

#[derive(Serialize, Deserialize, Clone)]
pub struct Lines(
    Vec<String>,
    /// Paths of its own, instead of the common ones
    #[serde(default)] Vec<String>,
);

const NAMES: &[&str] = &["a", "b", "x.R"];
const SEGMENTS: &[&str] = &["a", "b", "x.R", "*", "**", "*.R", "?", "[ab]", "a*"];
const ROOTS: &[&str] = &["/r/p", "r/p", "/a", "", "/", "/é b/c.d"];
const SPECIAL: &[&str] = &[
    "", " ", "#a", "# a", "\\#a", "\\!a", "a ", "a\t", "a\\ ", "!", "[!a]", "[a-b]", "[!a-z].R", "!a", "!/a", "!a/", "!*.R", "*", "**", "/*", "/**", "*/", "/*/", "**/", "x?R", "x.r", "A", "X.R", "*a*",
    "a.R", ".R", "**/*", "**/a/**", "a/**/b", "a/**/", "*.r", "x.*", "x\\.R", "/x.R", "/a/b/x.R", "a/b/x.R", "b/x.R",
];
const PAIRABLE: &[&str] = &[
    "a", "b", "x.R", "*", "/a", "/b", "/x.R", "a/", "/a/", "a/b", "a/*", "a/**", "*.R", "**/b", "/*", "a/x.R", "*/x.R", "**/a/", "b/", "/b/", "*/", "/a/*/x.R", "#a", "",
];

fn all_paths() -> &'static Vec<Vec<&'static str>> {
    static PATHS: std::sync::OnceLock<Vec<Vec<&'static str>>> = std::sync::OnceLock::new();
    PATHS.get_or_init(make_paths)
}

fn make_paths() -> Vec<Vec<&'static str>> {
    let mut out = Vec::new();
    for depth in [5, 8, 9, 16, 17, 33, 40] {
        for (unit, last) in [("a", "x.R"), ("c", "x.R"), ("b", "a")] {
            let mut path = vec![unit; depth];
            path.push(last);
            out.push(path.clone());
            path[0] = "a";
            out.push(path.clone());
            path[0] = "c";
            path[depth / 2] = "a";
            out.push(path);
        }
    }
    mc::words(NAMES.len(), 3, &mut |word| {
        if !word.is_empty() {
            out.push(word.iter().map(|i| NAMES[*i]).collect());
        }
    });
    // Near misses of names and case
    for extra in ["A", "X.R", "x.r", "ab", "xxR", ".R", "#a", "!a", "a ", "a/A", "ab/x.R", "x.R/x.R/x.R/x.R", "c/a/b/x.R", "c", "c.R", "xaR"] {
        out.push(extra.split('/').collect());
    }
    out
}

fn list(patterns: Vec<String>) -> Lines {
    Lines(patterns, Vec::new())
}

pub struct Exclude;

impl Check for Exclude {
    type Case = Lines;
    fn id(&self) -> &'static str {
        "W03"
    }
    fn key(&self, case: &Lines) -> String {
        serde_json::to_string(&case.0).unwrap_or_default()
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all single patterns of up to {} segments out of {} with and without leading slash, trailing slash and `!`, {} special patterns, all ordered pairs, repetitions and{} triples of {} patterns each with and without `!`, lists of up to {} and patterns of up to {} segments; on every path of up to 3 components over {} names plus near misses and paths of up to 40 components, as file and as directory, given relative and absolute, under {} roots, and on the root itself; every character (about 700) in patterns and names; names of up to {} characters",
            tier.pick(2, 3), SEGMENTS.len(), SPECIAL.len(), tier.pick(" (first half)", ""), PAIRABLE.len(), tier.pick(70, 300), tier.pick(40, 120), NAMES.len(), ROOTS.len(), 4097
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Brace alternatives, which the glob library adds to gitignore syntax, are outside of the alphabet.".into()]
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Lines)) {
        emit(list(Vec::new()));
        for special in SPECIAL {
            emit(list(vec![special.to_string()]));
            emit(list(vec!["*.R".to_string(), special.to_string()]));
            emit(list(vec![special.to_string(), "!x.R".to_string()]));
        }
        mc::words(SEGMENTS.len(), tier.pick(2, 3), &mut |word| {
            if word.is_empty() {
                return;
            }
            let body: Vec<&str> = word.iter().map(|i| SEGMENTS[*i]).collect();
            let body = body.join("/");
            for lead in ["", "/"] {
                for trail in ["", "/"] {
                    let pattern = format!("{lead}{body}{trail}");
                    emit(list(vec![pattern.clone()]));
                    emit(list(vec!["*".to_string(), format!("!{pattern}")]));
                }
            }
        });
        let signed: Vec<String> =
            PAIRABLE.iter().flat_map(|p| [p.to_string(), format!("!{p}")]).filter(|p| p != "!" && p != "!#a").collect();
        for one in &signed {
            for two in &signed {
                emit(list(vec![one.clone(), two.clone()]));
            }
        }
        // Triples, and in particular all repetitions
        let short = &signed[..tier.pick(24, signed.len())];
        for one in short {
            for two in short {
                for three in short {
                    emit(list(vec![one.clone(), two.clone(), three.clone()]));
                }
            }
        }
        for one in &signed {
            for two in &signed {
                emit(list(vec![one.clone(), two.clone(), one.clone()]));
                emit(list(vec![one.clone(), two.clone(), two.clone(), one.clone(), two.clone()]));
            }
        }
        // Lists of every length around a pattern and its negation
        for length in 0..=tier.pick(70, 300) {
            for position in [0, length / 2, length] {
                let mut lines: Vec<String> = (0..length).map(|i| format!("z{i}")).collect();
                lines.insert(position, "a/".to_string());
                emit(list(lines.clone()));
                lines.push("!a/b".to_string());
                emit(list(lines.clone()));
                lines.insert(0, "!x.R".to_string());
                emit(list(lines));
            }
        }
        // Every character in patterns and names, where it has no meaning of its own
        for c in mc::characters().filter(|c| !matches!(c, '\0' | '/' | '[' | ']' | '{' | '}' | '*' | '?' | '\\' | '.')) {
            let names: Vec<String> = [
                format!("x{c}y"), format!("x{c}{c}y"), "xy".into(), format!("{c}y"), "y".into(), format!("xx{c}y"), format!("a/x{c}y/b"),
                format!("x{c}y/x.R"), format!("a/{c}y"), "x-y".into(), c.to_uppercase().map(|c| format!("x{c}y")).collect::<Vec<_>>().concat(), c.to_lowercase().map(|c| format!("x{c}y")).collect::<Vec<_>>().concat(),
            ].to_vec();
            for pattern in [
                format!("x{c}y"), format!("/x{c}y"), format!("x{c}y/"), format!("a/x{c}y"), format!("x{c}*"), format!("*{c}y"), format!("x*{c}y"), format!("**/x{c}y"),
                format!("x\\{c}y"), format!("*{c}*"), format!("x{c}{c}y"),
            ] {
                // Letters after a backslash are outside of the alphabet, git and the library agree on the others
                if pattern.contains('\\') && (c.is_alphanumeric() || !c.is_ascii()) {
                    continue;
                }
                emit(Lines(vec![pattern.clone()], names.clone()));
                emit(Lines(vec!["*".into(), format!("!{pattern}")], names.clone()));
            }
            if !matches!(c, '#' | '!') {
                emit(Lines(vec![format!("{c}y")], names.clone()));
                emit(Lines(vec!["*".into(), format!("!{c}y")], names.clone()));
            }
        }
        // Names of every length
        for length in (1..=tier.pick(300, 1100)).chain([4095, 4096, 4097]) {
            let name = "n".repeat(length);
            let names: Vec<String> =
                [name.clone(), format!("{name}n"), format!("a/{name}"), format!("{name}/x.R"), name[1..].to_string() + "m", format!("{name}.R")].to_vec();
            for pattern in [name.clone(), format!("/{name}"), format!("{name}/"), format!("{name}*"), format!("*{name}"), "?".repeat(length), format!("{name}.R"), format!("a/{name}")] {
                emit(Lines(vec![pattern], names.clone()));
            }
        }
        // Patterns of every depth
        for depth in 1..=tier.pick(40, 120) {
            for (unit, last) in [("a/", "x.R"), ("a/", "b/"), ("*/", "x.R"), ("**/", "x.R"), ("a/**/", "x.R")] {
                for lead in ["", "/", "!", "!/"] {
                    let pattern = format!("{lead}{}{last}", unit.repeat(depth.min(if unit.contains("**") { 6 } else { depth })));
                    emit(list(if lead.starts_with('!') { vec!["*".to_string(), pattern] } else { vec![pattern] }));
                }
            }
        }
    }
    fn judge(&self, case: &Lines, ctx: &mut Ctx) -> Verdict {
        let patterns: Vec<Pattern> = case.0.iter().filter_map(|l| parse_pattern(l)).collect();
        // The last ones for single patterns only
        for root in &ROOTS[..if case.0.len() == 1 { ROOTS.len() } else { 4 }] {
            let matcher = access::Patterns::new(root, &case.0).map_err(|e| format!("{:?} is rejected: {e}", case.0))?;
            // The directory of the configuration is what the patterns are about, not excluded itself
            for is_directory in [false, true] {
                ensure!(!matcher.matched(root, is_directory), "patterns {:?} exclude their own directory {root:?}", case.0);
                ensure!(
                    !matcher.matched_path_or_any_parents(root, is_directory),
                    "patterns {:?} exclude their own directory {root:?} or a parent of it",
                    case.0
                );
            }
            let own: Vec<Vec<&str>> = case.1.iter().map(|path| path.split('/').collect()).collect();
            for components in if own.is_empty() { all_paths() } else { &own } {
                let relative = components.join("/");
                let mut spellings = vec![relative.clone()];
                if !root.is_empty() {
                    spellings.push(format!("{}/{relative}", root.trim_end_matches('/')));
                }
                for is_directory in [false, true] {
                    let here = decide(&patterns, components, is_directory);
                    let with_parents = decide_with_parents(&patterns, components, is_directory);
                    for path in &spellings {
                        // `r/p` + `a` under the root `a`... a relative path that happens to start
                        // with the root is ambiguous, and not used by the product
                        let got = matcher.matched(path, is_directory);
                        ensure_eq!(
                            got,
                            here == Some(true),
                            "patterns {:?} below {root:?} exclude {path:?} (directory: {is_directory})",
                            case.0
                        );
                        let got = matcher.matched_path_or_any_parents(path, is_directory);
                        ensure_eq!(
                            got,
                            with_parents,
                            "patterns {:?} below {root:?} exclude {path:?} or a parent (directory: {is_directory})",
                            case.0
                        );
                        ctx.step(2);
                    }
                    ctx.state(&(&case.0, here, with_parents, is_directory));
                    ctx.outcome(match (here, with_parents) {
                        (Some(true), _) => "excluded",
                        (Some(false), _) => "re-included",
                        (None, true) => "excluded by a parent",
                        (None, false) => "not excluded",
                    });
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------
// W04

#[derive(Serialize, Deserialize, Clone)]
pub struct PathCase {
    prefix: String,
    components: Vec<String>,
}

const DIRECTORIES: &[&str] = &[".git", "renv", "revdep"];
const FILES: &[&str] = &["cpp11.R", "RcppExports.R", "extendr-wrappers.R"];
const COMPONENTS: &[&str] = &[
    ".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-types.R", "import-standalone-.R",
    "import-standalone.R", "import-standalone-a", "import-standalone-a.r", "Import-standalone-a.R", "a.R", "a.r", "b.py", "renv2", "xrenv", "Renv", "git", ".gitignore", "cpp11.r",
    "xcpp11.R", "cpp11.R.R", "R", "r", ".R", ".r", "a.R.txt", "a.RR", "a.", "a.,", "a.Rmd", "a.[", "aR", "é.R", "a b.R", "extendr_wrappers.R",
];
const PREFIXES: &[&str] = &["", "/", "./", "/home/x/", "C:/", "../", "//x/", "./x/./"];

fn excluded_name(name: &str, is_directory: bool) -> bool {
    (is_directory && DIRECTORIES.contains(&name))
        || FILES.contains(&name)
        || (name.starts_with("import-standalone-") && name.ends_with(".R") && name.len() >= "import-standalone-.R".len())
}

fn included_name(name: &str) -> bool {
    name.ends_with(".R") || name.ends_with(".r")
}

pub struct Defaults;

impl Check for Defaults {
    type Case = PathCase;
    fn id(&self) -> &'static str {
        "W04"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all paths of up to {} components over {} names (the documented ones and near misses of them) after {} prefixes (relative, absolute, dotted), every name at every position of paths of up to {} components, names of up to {} characters, every character (about 700) in names, the documented names in all mixtures of small and capital letters, as file and as directory",
            3, COMPONENTS.len(), PREFIXES.len(), tier.pick(40, 150), tier.pick(300, 3000)
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(PathCase)) {
        for len in 0..=tier.pick(3, 3) {
            mc::words_of(COMPONENTS.len(), len, &mut |word| {
                let components: Vec<String> = word.iter().map(|i| COMPONENTS[*i].to_string()).collect();
                // In the quick tier, three components below one prefix only
                let prefixes = if len == 3 && tier == Tier::Quick { &PREFIXES[3..4] } else { PREFIXES };
                for prefix in prefixes {
                    emit(PathCase { prefix: prefix.to_string(), components: components.clone() });
                }
            });
        }
        // Every name at every position of paths of every depth
        for depth in 1..=tier.pick(40, 150) {
            for position in 0..depth {
                for name in COMPONENTS {
                    for last in ["a.R", "b.py"] {
                        let mut components = vec!["d".to_string(); depth];
                        components[position] = name.to_string();
                        components.push(last.to_string());
                        emit(PathCase { prefix: "/".to_string(), components });
                    }
                }
            }
        }
        // Every character in names
        for c in mc::characters().filter(|c| !matches!(c, '\0' | '/')) {
            for name in [
                format!("x{c}.R"), format!("{c}.r"), format!("a.R{c}"), format!("a.{c}R"), format!("a{c}R"), format!("x{c}"), format!("renv{c}"), format!("{c}renv"),
                format!(".git{c}"), format!("re{c}vdep"), format!("cpp11{c}R"), format!("cpp11.R{c}"), format!("RcppExports.{c}"), format!("import-standalone-{c}.R"),
                format!("import-standalone{c}x.R"), format!("{c}import-standalone-x.R"), format!("extendr{c}wrappers.R"),
            ] {
                for prefix in ["", "/home/x/"] {
                    emit(PathCase { prefix: prefix.to_string(), components: vec![name.clone()] });
                    emit(PathCase { prefix: prefix.to_string(), components: vec![name.clone(), "a.R".to_string()] });
                }
            }
        }
        // All ways to write the names in small and capital letters
        for name in [".git", "renv", "revdep", "cpp11.R", "RcppExports.R", "import-standalone-x.R", "extendr-wrappers.R"] {
            let letters: Vec<usize> = name.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            let n = letters.len().min(tier.pick(12, 17));
            for mask in 0..1u32 << n {
                let mut name = name.as_bytes().to_vec();
                // the last ones, then the first one
                for (bit, at) in letters.iter().rev().take(n).enumerate() {
                    if mask >> bit & 1 == 1 {
                        name[*at] ^= 0x20;
                    }
                }
                let name = String::from_utf8(name).unwrap();
                emit(PathCase { prefix: "/p/".to_string(), components: vec![name.clone()] });
                emit(PathCase { prefix: "".to_string(), components: vec![name, "a.R".to_string()] });
            }
        }
        // Names of every length
        for length in 0..=tier.pick(300, 3000) {
            let filler = "x".repeat(length);
            for name in [
                format!("import-standalone-{filler}.R"),
                format!("import-standalone{filler}.R"),
                format!("{filler}.R"),
                format!("{filler}.r"),
                format!("{filler}R"),
                format!("{filler}renv"),
                format!("renv{filler}"),
                format!("cpp11{filler}.R"),
                filler.clone(),
            ] {
                if !name.is_empty() {
                    emit(PathCase { prefix: "/".to_string(), components: vec![name.clone()] });
                    emit(PathCase { prefix: "".to_string(), components: vec![name.clone(), "a.R".to_string()] });
                }
            }
        }
    }
    fn judge(&self, case: &PathCase, ctx: &mut Ctx) -> Verdict {
        let text = format!("{}{}", case.prefix, case.components.join("/"));
        let path = Path::new(&text);
        let last = case.components.last().map(|s| s.as_str());
        for is_directory in [false, true] {
            let here = last.is_some_and(|name| excluded_name(name, is_directory));
            let above = case.components.iter().rev().skip(1).any(|name| excluded_name(name, true));
            ensure_eq!(access::default_exclude_matched(path, is_directory), here, "default patterns exclude {text:?} itself (directory: {is_directory})");
            ensure_eq!(
                access::default_exclude_matched_or_parents(path, is_directory),
                here || above,
                "default patterns exclude {text:?} (directory: {is_directory})"
            );
            let include = last.is_some_and(included_name);
            ensure_eq!(access::default_include_matched(path, is_directory), include, "default patterns include {text:?}");
            // Whatever lies in a directory named like an R file is not asserted either way
            if !case.components.iter().rev().skip(1).any(|name| included_name(name)) {
                ensure_eq!(access::default_include_matched_or_parents(path, is_directory), include, "default patterns include {text:?}");
            }
            ctx.step(4);
            ctx.state(&(last, here, above, include, is_directory));
            ctx.outcome(match (here || above, include) {
                (true, true) => "excluded R file",
                (true, false) => "excluded other",
                (false, true) => "included",
                (false, false) => "neither",
            });
        }
        ensure!(!text.contains('\0'), "alphabet");
        Ok(())
    }
}
