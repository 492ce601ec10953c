//! W09: making paths absolute and relative; R file names

use std::path::{Path, PathBuf};

use mc::{ensure, ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};

const TOKENS: &[&str] = &["a", ".", "..", "/", "b.R", "cw"];
const NAME_TOKENS: &[&str] = &[".", "R", "r", "a", "/", "Rr", " "];

#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    Path(String),
    /// Appended to the working directory's own spelling
    BelowCwd(String),
    Name(String),
}

pub struct Paths;

/// `<verif>/out/run/cwd/cw/cw2`: deep enough for `..`, with a sibling prefix of its own name
fn cwd() -> PathBuf {
    mc::verif_dir().join("out/run/cwd/cw/cw2")
}

fn resolve(cwd: &Path, text: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    if !text.starts_with('/') {
        out = cwd.to_str().unwrap().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    }
    for part in text.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            name => out.push(name.to_string()),
        }
    }
    out
}

fn names(path: &Path) -> Result<Vec<String>, String> {
    let text = path.to_str().ok_or("not UTF-8")?;
    if !text.starts_with('/') {
        return Err(format!("{text:?} is not absolute"));
    }
    Ok(text.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
}

/// Components of a displayed path, `.` and repeated slashes dropped
fn loose(text: &str) -> (bool, Vec<&str>) {
    (text.starts_with('/'), text.split('/').filter(|s| !s.is_empty() && *s != ".").collect())
}

impl Check for Paths {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W09"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all texts of up to {} tokens out of {:?}, alone and below the working directory; all names of up to {} tokens out of {:?}; every character (about 700) in names and paths; paths of up to 5000 components, dots and double dots, names of up to 5000 characters",
            tier.pick(6, 8), TOKENS, tier.pick(5, 7), NAME_TOKENS
        )
    }
    fn prepare(&self) {
        let cwd = cwd();
        std::fs::create_dir_all(&cwd).unwrap();
        std::env::set_current_dir(&cwd).unwrap();
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        mc::texts(TOKENS, tier.pick(6, 8), &mut |text| emit(Case::Path(text)));
        mc::texts(TOKENS, tier.pick(5, 7), &mut |text| emit(Case::BelowCwd(text)));
        mc::texts(NAME_TOKENS, tier.pick(5, 7), &mut |text| emit(Case::Name(text)));
        // Every character
        for c in mc::characters().filter(|c| !matches!(c, '\0' | '/')) {
            for name in [format!("x{c}.R"), format!("{c}.r"), format!("a.R{c}"), format!("a.{c}R"), format!("a{c}R"), format!("a.{c}"), format!("a.R/{c}"), format!("{c}")] {
                emit(Case::Name(name.clone()));
                if c == '.' {
                    continue;
                }
                emit(Case::Path(name.clone()));
                emit(Case::Path(format!("/{name}")));
                emit(Case::Path(format!("a/../{name}/.")));
                emit(Case::BelowCwd(name.clone()));
                emit(Case::BelowCwd(format!("/{name}")));
            }
        }
        // Every depth and length
        for n in (1..=tier.pick(150, 600)).chain([1024, 4096, 5000]) {
            for unit in ["../", "./", "a/", "a/../", "/", "n"] {
                for end in ["", "a", "..", ".", "b.R"] {
                    let text = format!("{}{end}", unit.repeat(n));
                    emit(Case::Path(text.clone()));
                    emit(Case::Path(format!("/{text}")));
                    emit(Case::Path(format!("a/b/{text}")));
                    emit(Case::BelowCwd(text.clone()));
                    emit(Case::BelowCwd(format!("/{text}")));
                    emit(Case::Name(text));
                }
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let cwd = cwd();
        let text = match case {
            Case::Path(text) => text.clone(),
            Case::BelowCwd(text) => format!("{}{text}", cwd.display()),
            Case::Name(name) => {
                // The name of a path is its last component; the extension is what follows
                // the last dot, unless that dot starts the name
                let last = name.split('/').filter(|s| !s.is_empty() && *s != ".").next_back();
                let only_dot = name.starts_with('.') && loose(name).1.is_empty();
                let want = !only_dot
                    && last.is_some_and(|last| {
                        last != ".."
                            && last.rfind('.').is_some_and(|i| i > 0 && matches!(&last[i + 1..], "R" | "r"))
                    });
                ensure_eq!(fs::has_r_extension(Path::new(name)), want, "{name:?} is an R file");
                ensure_eq!(fs::is_r_extension(name), name == "R" || name == "r", "{name:?} is an R extension");
                ctx.step(1);
                ctx.state(&("name", want, last));
                ctx.outcome(if want { "R file" } else { "other file" });
                return Ok(());
            }
        };
        ctx.step(text.split('/').count() as u64);

        let want = resolve(&cwd, &text);
        let absolute = fs::normalize_path(&text);
        let got = names(&absolute).map_err(|e| format!("{text:?} made absolute: {e}"))?;
        ensure!(
            !got.iter().any(|name| name == "." || name == ".."),
            "{text:?} made absolute keeps dots: {absolute:?}"
        );
        ensure_eq!(got, want, "{text:?} made absolute");
        ensure_eq!(fs::normalize_path(&absolute), absolute, "{text:?} made absolute twice");

        // Relative
        let base = cwd.to_str().unwrap();
        let (rooted, parts) = loose(&text);
        let (_, base_parts) = loose(base);
        let shown = fs::relativize_path(&text);
        if rooted && parts.starts_with(&base_parts) {
            ensure_eq!(loose(&shown), (false, parts[base_parts.len()..].to_vec()), "{text:?} shown relative to {base:?}");
            ctx.outcome("below the working directory");
        } else {
            ensure_eq!(shown, text, "{text:?} shown relative to {base:?}");
            ctx.outcome("elsewhere");
        }
        // The absolute spelling of what is shown is the same location
        ensure_eq!(fs::normalize_path(&shown), absolute, "{text:?} shown relative and made absolute again");
        let shown = fs::relativize_path(&absolute);
        ensure_eq!(fs::normalize_path(&shown), absolute, "{absolute:?} shown relative and made absolute again");
        ctx.state(&(rooted, &want));
        Ok(())
    }
}
