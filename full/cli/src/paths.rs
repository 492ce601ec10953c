//! W08 which files are formatted

use std::collections::BTreeSet;

use mc::{Check, Ctx, Failure, Scratch, Tier, Verdict, ensure_eq};
use serde::{Deserialize, Serialize};

use crate::command::{air, untouched, write};
use crate::gitignore::{Pattern, decide, decide_with_parents, parse_pattern};

pub struct Paths;

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    /// The directory with the configuration
    config: Option<String>,
    exclude: Vec<String>,
    default_exclude: bool,
    git: usize,
    /// From the root of the tree
    requests: Vec<String>,
    directory: String,
    force: bool,
    check: bool,
}

const FILES: [&str; 16] = [
    ".f.R",
    ".h/f.R",
    "a/b/f.R",
    "a/b/g.r",
    "a/cpp11.R",
    "a/f.R",
    "a/n.txt",
    "a/renv/f.R",
    "cpp11.R",
    "f.R",
    "g.r",
    "ign/b/f.R",
    "ign/f.R",
    "n.txt",
    "renv/f.R",
    "x.R/f.R",
];

const PATTERNS: [&str; 24] = [
    "f.R", "/f.R", "a/", "a", "/a/b", "b/", "b", "*.r", "a/*.R", "a/**", "a/**/f.R", "**/b/*.R", "*", "*/", "**", "x.R/", "x.R", "[fg].*",
    "!f.R", "!a", "!b/", "!cpp11.R", "!/a/b/f.R", "renv",
];

/// Is it a git repository? Its `.gitignore`, and another one in `a`
const GIT: [(bool, &[&str], &[&str]); 7] = [
    (true, &[], &[]),
    (true, &["ign/", "g.r"], &[]),
    (false, &["ign/", "g.r"], &[]),
    (true, &["/a/b"], &["f.R"]),
    (true, &["b", "f.R"], &["!f.R", "!b/"]),
    (true, &["*", "!*/", "!/a/**/[a-z]*"], &["/b/g.r"]),
    (true, &["/a/b/g.r", "a/f.R", "/ign/b"], &[]),
];

const REQUESTS: [&str; 20] = [
    "", "a", "a/b", "ign", "f.R", "a/f.R", "a/b/f.R", "g.r", "n.txt", "cpp11.R", "a/cpp11.R", "renv", "renv/f.R", "a/renv", ".h", ".f.R", ".h/f.R",
    "ign/f.R", "x.R", "missing.R",
];
const SOME: [&str; 7] = ["", "a", "a/b", "f.R", "renv/f.R", "x.R", "missing.R"];

fn below(path: &str, directory: &str) -> bool {
    directory.is_empty() || path == directory || path.strip_prefix(directory).is_some_and(|r| r.starts_with('/'))
}

fn parts(path: &str) -> Vec<&str> {
    path.split('/').filter(|p| !p.is_empty()).collect()
}

fn parse(lines: &[impl AsRef<str>]) -> Vec<Pattern> {
    lines.iter().filter_map(|l| parse_pattern(l.as_ref())).collect()
}

fn is_directory(path: &str) -> bool {
    path.is_empty() || FILES.iter().any(|f| f.strip_prefix(path).is_some_and(|r| r.starts_with('/')))
}

/// By the documented default patterns
fn by_default(name: &str, directory: bool) -> bool {
    directory && ["renv", "revdep", ".git"].contains(&name) || name == "cpp11.R"
}

/// The reference
struct Selection<'a> {
    case: &'a Case,
    exclude: Vec<Pattern>,
    /// Is the configuration one that any of the requested paths uses?
    used: bool,
    git: Vec<(&'static str, Vec<Pattern>)>,
    /// The directory that is walked
    requested: String,
    /// What the ignore crate takes for it, see `Paths::judge`
    base: Option<String>,
    files: BTreeSet<String>,
}

impl Selection<'_> {
    fn excluded(&self, path: &str, directory: bool, parents: bool) -> bool {
        if self.case.force {
            return false;
        }
        let mut defaults = true;
        if let Some(config) = &self.case.config
            && self.used
            && below(path, config)
        {
            defaults = self.case.default_exclude;
            let inside = parts(&path[config.len()..]);
            let excluded = match parents {
                _ if inside.is_empty() => false,
                true => decide_with_parents(&self.exclude, &inside, directory),
                false => decide(&self.exclude, &inside, directory) == Some(true),
            };
            if excluded {
                return true;
            }
        }
        let all = parts(path);
        let from = if parents { 0 } else { all.len().saturating_sub(1) };
        defaults && (from..all.len()).any(|i| by_default(all[i], directory || i + 1 < all.len()))
    }
    fn ignored(&self, path: &str, directory: bool) -> bool {
        self.git
            .iter()
            .filter(|(at, _)| below(path, at) && path != *at)
            .find_map(|(at, patterns)| match &self.base {
                Some(base) if !below(at, &self.requested) => {
                    let path = format!("{base}/{}", path.rsplit('/').next().unwrap());
                    decide(patterns, &parts(path.strip_prefix(at)?), directory)
                }
                _ => decide(patterns, &parts(&path[at.len()..]), directory),
            })
            .unwrap_or(false)
    }
    fn file(&mut self, path: &str) {
        if self.case.force || path.ends_with(".R") || path.ends_with(".r") {
            self.files.insert(path.to_string());
        }
    }
    fn walk(&mut self, directory: &str, all: &[String]) {
        let mut entries = BTreeSet::new();
        for file in all.iter().filter(|f| below(f, directory)) {
            let rest = file[directory.len()..].trim_start_matches('/');
            entries.insert(match rest.split_once('/') {
                Some((name, _)) => (name, true),
                None => (rest, false),
            });
        }
        for (name, is_directory) in entries {
            let path = if directory.is_empty() { name.to_string() } else { format!("{directory}/{name}") };
            // `!` in a `.gitignore` also shows hidden files, no pattern here does that to one
            if name.starts_with('.') || self.ignored(&path, is_directory) || self.excluded(&path, is_directory, false) {
                continue;
            }
            if is_directory {
                self.walk(&path, all);
            } else {
                self.file(&path);
            }
        }
    }
}

/// Ways to write a path from a directory
fn spelled(from: &str, path: &str, how: usize) -> String {
    let up = "../".repeat(parts(from).len());
    let plain = match path.strip_prefix(from).filter(|_| !from.is_empty() && below(path, from)) {
        Some("") => ".".to_string(),
        Some(rest) => rest.trim_start_matches('/').to_string(),
        None if path.is_empty() && up.is_empty() => ".".to_string(),
        None => format!("{up}{path}"),
    };
    match how {
        0 => plain,
        1 => format!("./{plain}"),
        2 => format!("{up}a/../{path}"),
        // only a directory may have one
        3 if is_directory(path) => format!("{plain}/"),
        3 => format!("{up}a/b/..//../{path}"),
        _ => unreachable!(),
    }
}

impl Check for Paths {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W08"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "a tree of {} files (hidden, excluded by default, in nested directories, not R, a directory named like an R file); every one of {} exclude patterns and {} pairs of them, with the configuration in either of two directories, with and without the default patterns; {} kinds of git repository; every one of {} requested paths in up to 4 spellings from 2 working directories, every pair of {}; forced or not; for each a process of its own",
            FILES.len(),
            PATTERNS.len(),
            tier.pick("some", "all"),
            GIT.len(),
            REQUESTS.len(),
            SOME.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("no symbolic links, no global git configuration; a path requested twice may be looked at twice".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let plain = Case {
            config: None,
            exclude: vec![],
            default_exclude: true,
            git: 0,
            requests: vec![],
            directory: "".into(),
            force: false,
            check: true,
        };
        let one = |path: &str, directory: &str, how: usize| vec![spelled(directory, path, how)];
        // requests, without any configuration
        for git in 0..GIT.len() {
            for force in [false, true] {
                for check in [true, false] {
                    let plain = Case { git, force, check, ..plain.clone() };
                    for directory in ["", "a"] {
                        for path in REQUESTS {
                            for how in 0..4 {
                                let requests = one(path, directory, how);
                                emit(Case { requests, directory: directory.into(), ..plain.clone() });
                            }
                        }
                        for a in SOME {
                            for b in SOME {
                                let requests = vec![spelled(directory, a, 0), spelled(directory, b, 0)];
                                emit(Case { requests, directory: directory.into(), ..plain.clone() });
                            }
                        }
                    }
                }
            }
        }
        let mut lists: Vec<Vec<String>> = vec![vec![]];
        lists.extend(PATTERNS.iter().map(|p| vec![p.to_string()]));
        for (n, exclude) in lists.iter().enumerate() {
            for config in ["", "a"] {
                for default_exclude in [true, false] {
                    let with = Case { config: Some(config.into()), exclude: exclude.clone(), default_exclude, ..plain.clone() };
                    for path in REQUESTS {
                        emit(Case { requests: one(path, "", 0), ..with.clone() });
                        if tier == Tier::Thorough || n % 3 == 0 {
                            emit(Case { requests: one(path, "a", 0), directory: "a".into(), ..with.clone() });
                            emit(Case { requests: one(path, "", 0), force: true, ..with.clone() });
                        }
                    }
                    for a in SOME {
                        for b in SOME {
                            if tier == Tier::Thorough || default_exclude && (config == "a" || a.len() + b.len() > 6) {
                                emit(Case { requests: vec![spelled("", a, 0), spelled("", b, 0)], ..with.clone() });
                            }
                        }
                    }
                    if tier == Tier::Thorough {
                        for git in 1..GIT.len() {
                            for path in REQUESTS {
                                emit(Case { requests: one(path, "", 0), git, ..with.clone() });
                            }
                        }
                    }
                }
            }
        }
        for first in PATTERNS {
            for second in PATTERNS {
                if tier == Tier::Quick && !second.starts_with('!') && !first.starts_with('!') {
                    continue;
                }
                for path in tier.pick(&SOME[..5], &REQUESTS[..]) {
                    for config in tier.pick(&["", "a"][..1], &["", "a"][..]) {
                        let exclude = vec![first.to_string(), second.to_string()];
                        let config = Some(config.to_string());
                        emit(Case { requests: one(path, "", 0), exclude, config, ..plain.clone() });
                    }
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let scratch = Scratch::new();
        let root = scratch.path().join("w");
        let mut all: Vec<String> = FILES.map(String::from).to_vec();
        for file in FILES {
            write(&root.join(file), b"x<-1\n", 0o644);
        }
        if let Some(config) = &case.config {
            let text = format!("[format]\nexclude = {:?}\ndefault-exclude = {}\n", case.exclude, case.default_exclude);
            let name = if config.is_empty() { "air.toml".to_string() } else { format!("{config}/air.toml") };
            write(&root.join(&name), text.as_bytes(), 0o644);
            all.push(name);
        }
        let (is_git, top, inner) = GIT[case.git];
        if is_git {
            std::fs::create_dir(root.join(".git")).unwrap();
        }
        for (at, lines) in [("", top), ("a", inner)] {
            if !lines.is_empty() {
                write(&root.join(at).join(".gitignore"), (lines.join("\n") + "\n").as_bytes(), 0o644);
            }
        }

        // what should happen
        let requests: Vec<String> = case
            .requests
            .iter()
            .map(|r| {
                let mut at = parts(&case.directory);
                for part in parts(r) {
                    match part {
                        "." => {}
                        ".." => _ = at.pop(),
                        p => at.push(p),
                    }
                }
                at.join("/")
            })
            .collect();
        let select = |bases: Option<&[String]>| {
            let mut selection = Selection {
                case,
                exclude: parse(&case.exclude),
                used: case.config.as_ref().is_some_and(|c| requests.iter().any(|r| below(r, c))),
                git: if is_git { vec![("a", parse(inner)), ("", parse(top))] } else { vec![] },
                requested: String::new(),
                base: None,
                files: BTreeSet::new(),
            };
            for (i, request) in requests.iter().enumerate() {
                let directory = is_directory(request);
                if (directory || all.contains(request)) && !selection.excluded(request, directory, true) {
                    selection.requested = request.clone();
                    selection.base = bases.map(|b| b[i].clone());
                    match directory {
                        true => selection.walk(request, &all),
                        false => selection.file(request),
                    }
                }
            }
            selection.files
        };
        let mut files = select(None);
        let mut failed = requests.iter().any(|r| !is_directory(r) && !all.contains(r));
        // no R code
        let configs: Vec<String> = files.iter().filter(|f| f.ends_with("air.toml")).cloned().collect();
        for config in &configs {
            files.remove(config);
            failed = true;
        }

        let mut args = vec!["format"];
        if case.check {
            args.push("--check");
        }
        if case.force {
            args.push("--force");
        }
        args.extend(case.requests.iter().map(|r| r.as_str()));
        let directory = root.join(&case.directory);
        let out = air(&directory, scratch.path(), &args, None)?;
        ctx.step(1);
        ctx.state(&serde_json::to_string(case).unwrap());
        ctx.outcome(match files.len() {
            0 => "none",
            1 => "one file",
            n if n < 6 => "some",
            _ => "many",
        });
        let what = format!(
            "{args:?} in {:?} with configuration in {:?} (exclude = {:?}, default-exclude = {}) and git {:?}",
            case.directory, case.config, case.exclude, case.default_exclude, GIT[case.git]
        );
        let mut got: BTreeSet<String> = BTreeSet::new();
        if case.check {
            for path in out.reported() {
                // shown from the working directory if it is below, else absolute
                let path = directory.join(path);
                let path = path.strip_prefix(&root).map_err(|_| format!("{what}: reports {}", path.display()))?;
                got.insert(path.to_str().unwrap().to_string());
            }
        }
        for file in &all {
            if !untouched(&root.join(file)) {
                got.insert(if case.check { format!("{file} (written)") } else { file.clone() });
            }
        }
        if got != files && is_git {
            // The ignore crate (before 0.4.24) applies the `.gitignore` files above a requested directory
            // to the name of the entry below the requested directory itself, or below another one
            // with the same parent, depending on which thread is first
            let choices: Vec<Vec<&String>> = requests
                .iter()
                .map(|r| {
                    let parent = r.rsplit_once('/').map_or("", |(p, _)| p);
                    let first = requests.iter().filter(|o| is_directory(o) && *o != parent && below(o, parent));
                    if is_directory(r) && !r.is_empty() { first.collect() } else { vec![r] }
                })
                .collect();
            let radix: Vec<usize> = choices.iter().map(|c| c.len()).collect();
            let mut known = false;
            mc::tuples(&radix, &mut |index| {
                let bases: Vec<String> = index.iter().zip(&choices).map(|(i, c)| c[*i].clone()).collect();
                let mut wrong = select(Some(&bases));
                for config in all.iter().filter(|f| f.ends_with("air.toml")) {
                    wrong.remove(config);
                }
                known |= wrong == got;
            });
            if known {
                let text = format!("{what}: files formatted: code gives {got:?}, expected {files:?}");
                return Err(Failure { key: "a .gitignore above a requested directory is applied to another path".into(), what: text });
            }
        }
        ensure_eq!(got, files, "{what}: files formatted");
        let code = match (failed, case.check && !files.is_empty()) {
            (true, _) => 255,
            (false, true) => 1,
            (false, false) => 0,
        };
        ensure_eq!(out.code, code, "{what}: exit status");
        Ok(())
    }
}
