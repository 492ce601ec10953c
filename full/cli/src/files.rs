//! A01 formatting files

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use workspace::settings::FormatSettings;

use crate::command::{air, formatted, untouched, write};

pub struct Files;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum State {
    Clean,
    Dirty,
    Crlf,
    Syntax,
    NotUtf8,
    Unreadable,
    ReadOnly,
    ReadOnlyClean,
    Empty,
    /// By the defaults
    Excluded,
    /// No R code by its name
    Other,
    Missing,
    Directory,
    Hidden,
}
use State::*;

const STATES: [State; 14] =
    [Clean, Dirty, Crlf, Syntax, NotUtf8, Unreadable, ReadOnly, ReadOnlyClean, Empty, Excluded, Other, Missing, Directory, Hidden];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Request {
    Directory,
    Each,
    EachAndDirectory,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    files: Vec<State>,
    request: Request,
    check: bool,
    force: bool,
    /// A configuration file, and whether it is valid
    toml: Option<bool>,
}

impl State {
    fn name(self, i: usize) -> String {
        match self {
            Excluded => format!("import-standalone-{i}.R"),
            Other => format!("f{i}.txt"),
            Hidden => format!(".f{i}.R"),
            _ => format!("f{i}.R"),
        }
    }
    fn content(self) -> Option<&'static [u8]> {
        Some(match self {
            Clean | ReadOnlyClean => b"x <- 1\n",
            Dirty | Unreadable | ReadOnly | Excluded | Other | Hidden => b"x<-1 ; y\n",
            Crlf => b"x<-1\r\ny\r\n",
            Syntax => b"x<-(\n",
            NotUtf8 => b"x<-1 # \xff\n",
            Empty => b"",
            Missing | Directory => return None,
        })
    }
    fn mode(self) -> u32 {
        match self {
            Unreadable => 0o000,
            ReadOnly | ReadOnlyClean => 0o444,
            _ => 0o644,
        }
    }
}

impl Check for Files {
    type Case = Case;
    fn id(&self) -> &'static str {
        "A01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "up to {} files, each in any of {} states (formatted, not, with CRLF, with a syntax error, not UTF-8, unreadable, not writable, empty, excluded, no R file, missing, a directory, hidden), requested as their directory, each by name, or both; formatted or checked, forced or not; without, with a valid and with an invalid configuration; for each a process of its own",
            tier.pick(3, 4),
            STATES.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let mut layer: Vec<Vec<State>> = vec![vec![]];
        for n in 0..=tier.pick(3, 4) {
            for files in &layer {
                for request in [Request::Directory, Request::Each, Request::EachAndDirectory] {
                    for check in [false, true] {
                        for force in [false, true] {
                            for toml in [None, Some(true), Some(false)] {
                                // the order matters to nothing but which comes first
                                let sorted = files.windows(2).all(|w| w[0] as u8 <= w[1] as u8);
                                if n >= 3 && !sorted || n >= 3 && (toml.is_some() || force && request != Request::Each) {
                                    continue;
                                }
                                // the configuration file would be formatted
                                if force && toml.is_some() && request != Request::Each {
                                    continue;
                                }
                                if n == 0 && request != Request::Directory {
                                    continue;
                                }
                                emit(Case { files: files.clone(), request, check, force, toml });
                            }
                        }
                    }
                }
            }
            layer = layer
                .iter()
                .flat_map(|l| STATES.iter().map(move |s| l.iter().copied().chain([*s]).collect()))
                .collect();
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let scratch = Scratch::new();
        let root = scratch.path().join("w");
        std::fs::create_dir(&root).unwrap();
        let mut settings = FormatSettings::default();
        if let Some(valid) = case.toml {
            let text = if valid { "[format]\nassignment-style = \"equal\"\n" } else { "[format]\nassignment-style = 3\n" };
            write(&root.join("air.toml"), text.as_bytes(), 0o644);
            if valid {
                settings.assignment_style = settings::AssignmentStyle::Equal;
            }
        }
        for (i, state) in case.files.iter().enumerate() {
            let path = root.join(state.name(i));
            match state.content() {
                Some(content) => write(&path, content, state.mode()),
                None if *state == Directory => std::fs::create_dir(&path).unwrap(),
                None => {}
            }
        }
        let names: Vec<String> = case.files.iter().enumerate().map(|(i, s)| s.name(i)).collect();
        let mut args = vec!["format"];
        if case.check {
            args.push("--check");
        }
        if case.force {
            args.push("--force");
        }
        if case.request != Request::Directory {
            args.extend(names.iter().map(|n| n.as_str()));
        }
        if case.request != Request::Each {
            args.push(".");
        }

        // what should happen
        let stops = case.toml == Some(false);
        let mut failed = stops;
        let mut changed = Vec::new();
        let mut want = Vec::new();
        for (i, state) in case.files.iter().enumerate() {
            let by_name = case.request != Request::Directory;
            let selected = match state {
                Hidden => by_name,
                Excluded | Other => case.force,
                Missing => by_name,
                Directory => false,
                _ => true,
            };
            let mut content = state.content().map(|c| c.to_vec());
            if selected && !stops {
                let text = content.as_deref().and_then(|c| std::str::from_utf8(c).ok());
                let new = text.filter(|_| *state != Unreadable).and_then(|t| formatted(t, &settings));
                match new {
                    None => failed = true,
                    Some(new) if Some(new.as_str()) == text => {}
                    Some(_) if case.check => changed.push(names[i].clone()),
                    Some(_) if matches!(state, ReadOnly | ReadOnlyClean) => failed = true,
                    Some(new) => {
                        changed.push(names[i].clone());
                        content = Some(new.into_bytes());
                    }
                }
            }
            want.push(content);
        }
        changed.sort();

        let out = air(&root, scratch.path(), &args, None)?;
        ctx.step(1);
        ctx.state(&(&case.files, case.request, case.check, case.force, case.toml));
        let what = format!("{args:?} with {:?} and configuration {:?}", case.files, case.toml);
        ctx.outcome(if failed { "failed" } else if changed.is_empty() { "nothing to do" } else { "changed" });
        use std::os::unix::fs::PermissionsExt;
        for (i, want) in want.iter().enumerate() {
            let path = root.join(&names[i]);
            let Some(want) = want else {
                ensure_eq!(path.exists(), case.files[i] == Directory, "{what}: {} exists", names[i]);
                continue;
            };
            let mode = std::fs::metadata(&path).map_err(|e| format!("{what}: {e}"))?.permissions().mode() & 0o777;
            ensure_eq!(mode, case.files[i].mode(), "{what}: mode of {}", names[i]);
            let written = !case.check && changed.contains(&names[i]);
            ensure_eq!(untouched(&path), !written, "{what}: is {} untouched", names[i]);
            let got = std::fs::read(&path).map_err(|e| format!("{what}: {e}"))?;
            ensure_eq!(String::from_utf8_lossy(&got), String::from_utf8_lossy(want), "{what}: content of {}", names[i]);
        }
        let left: Vec<_> = std::fs::read_dir(&root).unwrap().filter_map(|e| e.unwrap().file_name().into_string().ok()).collect();
        for name in &left {
            ensure!(names.contains(name) || name == "air.toml", "{what}: leaves {name} behind");
        }
        let code = match (failed, case.check && !changed.is_empty()) {
            (true, _) => 255,
            (false, true) => 1,
            (false, false) => 0,
        };
        ensure_eq!(out.code, code, "{what}: exit status");
        ensure!(out.stdout.is_empty(), "{what}: prints {:?}", String::from_utf8_lossy(&out.stdout));
        let mut reported = out.reported();
        reported.dedup();
        let want = if case.check { changed } else { vec![] };
        ensure_eq!(reported, want, "{what}: files reported");
        Ok(())
    }
}
