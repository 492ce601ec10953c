//! W02 the configuration that applies to a file

use std::collections::BTreeMap;

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};

use crate::command::{air, write};

pub struct Closest;

/// What a directory has
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Has {
    Nothing,
    Visible,
    Hidden,
    Both,
    /// Directories by these names
    Directories,
    Empty,
    Invalid,
    /// An invalid `.air.toml` next to a valid `air.toml`
    InvalidHidden,
}
use Has::*;
const ALL: [Has; 8] = [Nothing, Visible, Hidden, Both, Directories, Empty, Invalid, InvalidHidden];

/// From the root of the tree; `p` is a sibling of `a`
const DIRS: [&str; 5] = ["", "a", "a/b", "a/b/c", "p"];

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    has: Vec<Has>,
    requests: Vec<String>,
    directory: String,
    stdin: bool,
}

/// Four ways of formatting, for the width of every directory's `air.toml` and `.air.toml`
fn width(dir: usize, hidden: bool) -> usize {
    3 + dir * 2 + usize::from(hidden)
}

/// What applies in a directory: `Ok(None)` if none of the directories above it has a say
fn applies(has: &[Has], dir: &str) -> Result<Option<(usize, usize)>, ()> {
    let mut at = Some(dir);
    while let Some(dir) = at {
        if let Some(i) = DIRS.iter().position(|d| *d == dir) {
            match has[i] {
                Nothing | Directories => {}
                Visible | Both | InvalidHidden => return Ok(Some((i, width(i, false)))),
                Hidden => return Ok(Some((i, width(i, true)))),
                Empty => return Ok(Some((i, 2))),
                Invalid => return Err(()),
            }
        }
        at = match dir.rfind('/') {
            Some(n) => Some(&dir[..n]),
            None if dir.is_empty() => None,
            None => Some(""),
        };
    }
    Ok(None)
}

fn normal(directory: &str, given: &str) -> String {
    let mut parts: Vec<&str> = directory.split('/').filter(|p| !p.is_empty()).collect();
    for part in given.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            p => parts.push(p),
        }
    }
    parts.join("/")
}

const TEXT: &str = "{\n1\n}\n";
const ONE: &[&str] = &["", "a", "a/b", "a/b/c", "a/b/f.R", "a/b/c/f.R", "f.R", "./a/../a/b/f.R", "a/b/"];
const TWO: &[(&str, &str)] = &[
    ("a", "p"),
    ("a/b/f.R", "a/f.R"),
    ("a/f.R", "a/b/f.R"),
    ("a/b/c/f.R", "p/f.R"),
    ("a/b/c/f.R", "f.R"),
    ("p", "a/b/c"),
    ("a/b", "a/b/c"),
    ("a/b/c", "a"),
];
/// Deepest first
const STARTS: [&str; 3] = ["", "a/b", "p"];

/// Spelled from the directory
fn spelled(directory: &str, path: &str) -> String {
    let up = directory.split('/').filter(|p| !p.is_empty()).count();
    match (up, path) {
        (0, "") => ".".to_string(),
        (0, p) => p.to_string(),
        _ => {
            if let Some(rest) = path.strip_prefix(directory) {
                if rest.trim_matches('/').is_empty() {
                    return ".".into();
                }
                if let Some(rest) = rest.strip_prefix('/') {
                    return rest.to_string();
                }
            }
            format!("{}{path}", "../".repeat(up))
        }
    }
}

impl Check for Closest {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W02"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "a tree of five directories, four of them nested; in {} of them any of {} combinations of `air.toml` and `.air.toml` (neither, either, both, empty, invalid ones, directories by these names); every request of one path out of {} and of two out of {} pairs, from three working directories, and of standard input; for each a process of its own",
            tier.pick("every two and all but one (with fewer combinations)", "all"),
            ALL.len(),
            ONE.len(),
            TWO.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("configurations below a requested directory count only if another requested path is at or below them".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let mut trees: Vec<Vec<Has>> = vec![];
        let few = [Nothing, Visible, Hidden, Invalid];
        mc::tuples(&[ALL.len(); 5], &mut |index| {
            let has: Vec<Has> = index.iter().map(|i| ALL[*i]).collect();
            let set = has.iter().filter(|h| **h != Nothing).count();
            let plain = has.iter().all(|h| few.contains(h));
            let keep = match tier {
                Tier::Quick => set <= 2 && (set < 2 || has[4] == Nothing || plain) || plain && set >= 4 && has[4] == Visible,
                Tier::Thorough => set <= 3 || plain,
            };
            if keep {
                trees.push(has);
            }
        });
        for has in trees {
            for directory in STARTS {
                for one in ONE {
                    for stdin in [false, true] {
                        if stdin && !one.ends_with(".R") {
                            continue;
                        }
                        emit(Case { has: has.clone(), requests: vec![spelled(directory, one)], directory: directory.into(), stdin });
                    }
                }
                if directory.is_empty() || tier == Tier::Thorough {
                    for (a, b) in TWO {
                        let requests = vec![spelled(directory, a), spelled(directory, b)];
                        emit(Case { has: has.clone(), requests, directory: directory.into(), stdin: false });
                    }
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let scratch = Scratch::new();
        let root = scratch.path().join("w");
        let toml = |dir: usize, hidden: bool| format!("[format]\nindent-width = {}\n", width(dir, hidden));
        for (i, dir) in DIRS.iter().enumerate() {
            let at = root.join(dir);
            write(&at.join("f.R"), TEXT.as_bytes(), 0o644);
            let (visible, hidden) = (at.join("air.toml"), at.join(".air.toml"));
            let put = |path: &std::path::Path, text: &str| write(path, text.as_bytes(), 0o644);
            match case.has[i] {
                Nothing => {}
                Visible => put(&visible, &toml(i, false)),
                Hidden => put(&hidden, &toml(i, true)),
                Both => {
                    put(&visible, &toml(i, false));
                    put(&hidden, &toml(i, true));
                }
                Directories => {
                    std::fs::create_dir(&visible).unwrap();
                    std::fs::create_dir(&hidden).unwrap();
                }
                Empty => put(&visible, ""),
                Invalid => put(&visible, "[format]\nindent-width = 99\n"),
                InvalidHidden => {
                    put(&visible, &toml(i, false));
                    put(&hidden, "[format]\nindent-width = 99\n");
                }
            }
        }
        let requests: Vec<String> = case.requests.iter().map(|r| normal(&case.directory, r)).collect();
        // the configurations in play
        let mut known: BTreeMap<usize, usize> = BTreeMap::new();
        let mut fails = false;
        for request in &requests {
            match applies(&case.has, request.strip_suffix("f.R").map_or(request.as_str(), |d| d.trim_end_matches('/'))) {
                Ok(Some((dir, width))) => {
                    known.insert(dir, width);
                }
                Ok(None) => {}
                Err(()) => fails = true,
            }
        }
        let mut want = BTreeMap::new();
        for dir in DIRS {
            let file = normal(dir, "f.R");
            let requested = requests.iter().any(|r| r.is_empty() || file == *r || file.starts_with(&format!("{r}/")));
            let width = known
                .iter()
                .filter(|(d, _)| DIRS[**d].is_empty() || dir == DIRS[**d] || dir.starts_with(&format!("{}/", DIRS[**d])))
                .max_by_key(|(d, _)| DIRS[**d].len())
                .map_or(2, |(_, w)| *w);
            let text = format!("{{\n{}1\n}}\n", " ".repeat(width));
            want.insert(file, if requested && !fails { text } else { TEXT.to_string() });
        }

        let start = root.join(&case.directory);
        let mut args = vec!["format"];
        if case.stdin {
            args.push("--stdin-file-path");
        }
        args.extend(case.requests.iter().map(|r| r.as_str()));
        let out = air(&start, scratch.path(), &args, case.stdin.then_some(TEXT.as_bytes()))?;
        ctx.step(1);
        ctx.state(&(&case.has, &case.requests, &case.directory, case.stdin));
        ctx.outcome(if fails { "invalid" } else if known.is_empty() { "defaults" } else { "configured" });
        let what = format!("{args:?} from {:?} with {:?} in {DIRS:?}", case.directory, case.has);
        ensure_eq!(out.code, if fails { 255 } else { 0 }, "{what}: exit status");
        if case.stdin {
            let want = if fails { "" } else { want[&requests[0]].as_str() };
            ensure_eq!(String::from_utf8_lossy(&out.stdout), want, "{what}: output");
            return Ok(());
        }
        ensure!(!fails || !out.stderr.is_empty(), "{what}: no word about the invalid configuration");
        for (file, want) in want {
            let got = std::fs::read_to_string(root.join(&file)).map_err(|e| e.to_string())?;
            ensure_eq!(got, want, "{what}: {file}");
        }
        Ok(())
    }
}
