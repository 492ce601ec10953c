//! A02 formatting standard input

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use workspace::settings::FormatSettings;

use crate::command::{air, formatted, write};

pub struct Stdin;

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    text: String,
    /// Given to the command, from the working directory
    path: String,
    directory: String,
    /// Whether there is a file of that name, with another content
    exists: bool,
    toml: Option<String>,
    check: bool,
    force: bool,
}

const PARTS: &[&str] = &["x<-1", "\n", "\r\n", " ", "# é\n", "(", ")", "f(a,b)", "if(a)b", "\u{feff}"];
const SAMPLES: &[&str] = &["", "x<-1", "x <- 1\n", "x<-1\r\ny\r\n", "x<-(\n", "f(a,\n  b)\nif(a){b}\n"];
const TOMLS: &[&str] = &[
    "",
    "[format]\nindent-width = 7\nassignment-style = \"equal\"\n",
    "[format]\nline-ending = \"crlf\"\n",
    "[format]\nexclude = [\"a.R\"]\n",
    "[format]\nexclude = [\"sub/\"]\n",
    "[format]\nexclude = [\"/sub/*\", \"!b.R\"]\n",
    "[format]\ndefault-exclude = false\n",
    "[format]\nindent-width = 0\n",
    "[format\n",
];
/// With the directory to start from, both from the directory with the configuration
const PATHS: &[(&str, &str)] = &[
    ("a.R", "."),
    ("./a.R", "."),
    ("sub/../a.R", "."),
    ("../w/a.R", "."),
    ("sub/b.R", "."),
    ("b.R", "sub"),
    ("../a.R", "sub"),
    ("renv/a.R", "."),
    ("a.R", "renv"),
    ("cpp11.R", "."),
    ("n.txt", "."),
    ("n", "."),
    (".a.R", "."),
    ("a.r", "."),
    ("none/of/these.R", "."),
    ("none/../sub/a.R", "."),
    ("../o.R", "."),
    ("/ABSOLUTE/sub/b.R", "."),
];

impl Check for Stdin {
    type Case = Case;
    fn id(&self) -> &'static str {
        "A02"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all texts of at most {} parts out of {}, and {} texts under every one of {} paths, from three working directories, with {} configurations, checked or not, forced or not, the file being there or not; for each a process of its own, and one that formats the file",
            tier.pick(3, 4),
            PARTS.len(),
            SAMPLES.len(),
            PATHS.len(),
            TOMLS.len() + 1
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let mut layer = vec![String::new()];
        for _ in 0..=tier.pick(3, 4) {
            for text in &layer {
                for check in [false, true] {
                    let case = Case {
                        text: text.clone(),
                        path: "a.R".into(),
                        directory: ".".into(),
                        exists: false,
                        toml: None,
                        check,
                        force: false,
                    };
                    emit(case);
                }
            }
            layer = layer.iter().flat_map(|t| PARTS.iter().map(move |s| format!("{t}{s}"))).collect();
        }
        for text in SAMPLES {
            for (path, directory) in PATHS {
                for toml in std::iter::once(None).chain(TOMLS.iter().map(Some)) {
                    for bits in 0..8 {
                        emit(Case {
                            text: text.to_string(),
                            path: path.to_string(),
                            directory: directory.to_string(),
                            exists: bits & 1 > 0,
                            toml: toml.map(|t| t.to_string()),
                            check: bits & 2 > 0,
                            force: bits & 4 > 0,
                        });
                    }
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let scratch = Scratch::new();
        let root = scratch.path().join("w");
        for directory in ["sub", "renv"] {
            std::fs::create_dir_all(root.join(directory)).unwrap();
        }
        if let Some(toml) = &case.toml {
            write(&root.join("air.toml"), toml.as_bytes(), 0o644);
        }
        let given = case.path.replace("/ABSOLUTE", root.to_str().unwrap());
        let start = root.join(&case.directory);
        let file = {
            let mut out = std::path::PathBuf::new();
            for part in start.join(&given).components() {
                match part {
                    std::path::Component::ParentDir => {
                        out.pop();
                    }
                    std::path::Component::CurDir => {}
                    other => out.push(other),
                }
            }
            out
        };
        let other: &[u8] = b"another<-text\n";
        if case.exists {
            write(&file, other, 0o644);
        }
        let mut args = vec!["format", "--stdin-file-path", given.as_str()];
        if case.check {
            args.push("--check");
        }
        if case.force {
            args.push("--force");
        }
        let out = air(&start, scratch.path(), &args, Some(case.text.as_bytes()))?;
        ctx.step(1);
        ctx.state(&(&case.text, &case.path, &case.directory, &case.toml, case.check, case.force));
        let what = format!("{args:?} from {} with {:?} and configuration {:?}", case.directory, case.text, case.toml);
        if case.exists {
            ensure_eq!(std::fs::read(&file).unwrap(), other, "{what}: the file itself");
        } else {
            ensure!(!file.exists(), "{what}: creates the file");
        }

        // the same with a file
        write(&file, case.text.as_bytes(), 0o644);
        let mut args = vec!["format", given.as_str()];
        if case.check {
            args.push("--check");
        }
        if case.force {
            args.push("--force");
        }
        let with_file = air(&start, scratch.path(), &args, None)?;
        ctx.step(1);
        ensure_eq!(out.code, with_file.code, "{what}: exit status, compared with formatting the file");
        let left = std::fs::read(&file).unwrap();
        let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
        if out.code == 255 || case.check {
            ensure!(stdout.is_empty(), "{what}: prints {stdout:?} with status {}", out.code);
            ensure_eq!(String::from_utf8_lossy(&left), case.text, "{what}: content of the file");
        } else {
            ensure_eq!(stdout, String::from_utf8_lossy(&left), "{what}: compared with formatting the file");
        }
        // and what that is without configuration
        if case.toml.is_none() && case.path.ends_with("a.R") && case.directory == "." && !case.path.contains("renv") {
            let want = formatted(&case.text, &FormatSettings::default());
            let code = match &want {
                None => 255,
                Some(want) => i32::from(case.check && *want != case.text),
            };
            ensure_eq!(out.code, code, "{what}: exit status");
            if let (Some(want), false) = (want, case.check) {
                ensure_eq!(stdout, want, "{what}: output");
            }
        }
        ctx.outcome(match (out.code, case.check) {
            (255, _) => "failed",
            (1, _) => "would change",
            (_, true) => "would not change",
            _ if stdout == case.text => "passed through",
            _ => "formatted",
        });
        Ok(())
    }
}
