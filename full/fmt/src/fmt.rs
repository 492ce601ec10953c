//! Properties that are judged on every program and its formatted text: F01 to F05.
use std::collections::HashSet;
use std::sync::OnceLock;

use mc::{Check, Ctx, Failure, Tier, Verdict, ensure};

use crate::families::{Case, describe, programs};
use crate::oracle::{Part, comments, parts};
use crate::{r, sites};

pub struct Fmt(pub &'static str);

pub fn assign(toml: &str) -> r::Assign {
    if toml.contains("assignment-style = \"equal\"") {
        r::Assign::Equal
    } else if toml.contains("assignment-style = \"preserve\"") {
        r::Assign::Preserve
    } else {
        r::Assign::Arrow
    }
}

/// The line ending that a text has under a configuration
pub fn ending(toml: &str, src: &str) -> &'static str {
    if toml.contains("line-ending = \"crlf\"") {
        "\r\n"
    } else if toml.contains("line-ending = \"lf\"") || toml.contains("line-ending = \"native\"") {
        "\n"
    } else if src.find('\n').is_some_and(|i| src[..i].ends_with('\r')) {
        "\r\n"
    } else {
        "\n"
    }
}

impl Fmt {
    /// Without the key of the violation
    pub fn plain(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let src = &case.src();
        let toml = &case.toml;
        let Some(tree) = r::parse(src) else {
            ctx.outcome("rejected");
            if self.0 == "F04" {
                let options = r::options(toml, src)?;
                match mc::guard(|| workspace::format::format_source(src, options)) {
                    Ok(Err(workspace::format::FormatSourceError::Parse(_))) => {}
                    other => return Err(format!("{src:?} has a syntax error, but formatting it gives {other:?}").into()),
                }
            }
            return Ok(());
        };
        let out = match mc::guard(|| r::format_parsed(&tree, toml, src)) {
            Ok(Ok(out)) => out,
            Ok(Err(e)) | Err(e) => {
                if self.0 == "F04" {
                    return Err(format!("{src:?} does not format: {e}").into());
                }
                ctx.outcome("fails");
                return Ok(());
            }
        };
        ctx.step(1);
        ctx.state(&out);
        ctx.outcome(if out == *src { "unchanged" } else { "changed" });
        match self.0 {
            "F01" => match r::format(&out, toml) {
                None => ctx.outcome("output rejected"),
                Some(Err(_)) => ctx.outcome("output fails"),
                Some(Ok(again)) => ensure!(again == out, "{src:?} formats to {out:?}, which formats to {again:?}"),
            },
            "F02" => {
                let Some(after) = r::parse(&out) else { return Ok(()) };
                if let Err(what) = r::same_meaning(&r::meaning(&tree.syntax()), &r::meaning(&after.syntax()), assign(toml)) {
                    return Err(format!("{src:?} formats to {out:?}: {what}").into());
                }
            }
            "F03" => {
                let (before, after) = (comments(src), comments(&out));
                // An end-of-line comment may end up behind another one
                if before.join(" ") != after.join(" ") {
                    let words = |comments: &[String]| {
                        let mut words: Vec<String> = comments.iter().flat_map(|c| c.split(' ')).map(String::from).collect();
                        words.sort();
                        words
                    };
                    let kind = if words(&before) == words(&after) { "order" } else { "lost" };
                    return Err(Failure { key: kind.to_string(), what: format!("{src:?} formats to {out:?}: comments {before:?} became {after:?}") });
                }
            }
            "F04" => ensure!(r::parse(&out).is_some(), "{src:?} formats to {out:?}, which does not parse"),
            // `a$` without what is extracted is accepted, and kept verbatim
            "F05" if !r::incomplete(&tree.syntax()) => hygiene(&out, src, toml)?,
            "F05" => {}
            _ => unreachable!(),
        }
        Ok(())
    }

    fn known(&self) -> &'static HashSet<String> {
        static KNOWN: OnceLock<HashSet<String>> = OnceLock::new();
        KNOWN.get_or_init(|| mc::known_keys(self.0))
    }

    /// The key that a site is listed with, that may be limited to a setting, or to a directive
    fn listed(&self, kind: &str, site: &sites::Site, toml: &str) -> Option<String> {
        let mut names = vec![site.name.clone()];
        if let [before, _, after] = site.name.split('`').collect::<Vec<_>>()[..] {
            names.push(format!("{}{}", before, after.trim_start()));
        }
        let mut keys = names.iter().flat_map(|name| {
            let key = format!("{kind}{name}");
            let settings: Vec<String> = toml.lines().map(|l| format!("{key}; {l}")).collect();
            settings.into_iter().chain([key])
        });
        keys.find(|k| self.known().contains(k))
    }

    /// The recorded finding that a violation is, if it goes away with the comments that stand at
    /// listed call sites; otherwise what is left without these comments
    fn attributed(&self, case: &Case, failure: &Failure, kind: &str) -> Result<String, Option<Case>> {
        let mut current = case.clone();
        let mut first = None;
        // In `a = b <- c`, `=` binds less than the `<-` that it becomes
        const ROW: &str = "row of different assignment operators";
        if self.known().contains(ROW) && r::parse(&case.src()).is_some_and(|t| r::mixed_assignments(&t.syntax())) {
            let kept = case.toml.lines().filter(|l| !l.starts_with("assignment-style")).chain(["assignment-style = \"preserve\""]);
            let kept = Case { toml: kept.collect::<Vec<_>>().join("\n"), ..case.clone() };
            if self.plain(&kept, &mut Ctx::default()).err().is_none_or(|f| f.key != failure.key) {
                return Ok(ROW.to_string());
            }
        }
        loop {
            let found = sites::comment_sites(&current.src());
            let listed: Vec<_> = found.into_iter().filter_map(|s| Some((self.listed(kind, &s, &current.toml)?, s))).collect();
            if listed.is_empty() {
                return Err(first.map(|_| current));
            }
            let key = first.get_or_insert(listed[0].0.clone()).clone();
            let listed: Vec<_> = listed.into_iter().map(|(_, site)| site).collect();
            current = Case { crlf: false, ..Case::text(&sites::without(&current.src(), &listed), &current.toml) };
            if self.plain(&current, &mut Ctx::default()).err().is_none_or(|f| f.key != failure.key) {
                return Ok(key);
            }
        }
    }

    /// Names a violation by the call site of a recorded finding if it is one; otherwise by its own
    /// call sites
    fn named(&self, case: &Case, failure: Failure) -> Failure {
        let kind = if failure.key.is_empty() { String::new() } else { format!("{}: ", failure.key) };
        let from = match self.attributed(case, &failure, &kind) {
            Ok(key) => return Failure { key, what: failure.what },
            Err(rest) => rest.unwrap_or(case.clone()),
        };
        let smallest = sites::minimise(self, &from, &failure.key);
        let Err(f) = self.plain(&smallest, &mut Ctx::default()) else { return failure };
        // Smaller gaps may be at listed sites
        if let Ok(key) = self.attributed(&smallest, &f, &kind) {
            return Failure { key, what: f.what };
        }
        Failure { key: format!("{kind}{}", sites::signature(&smallest)), what: format!("under [{}], {}", smallest.toml.replace('\n', "; "), f.what) }
    }
}

fn hygiene(out: &str, src: &str, toml: &str) -> Verdict {
    let want = ending(toml, src);
    let text = out.replace("\r\n", "\n");
    ensure!(
        out.matches('\n').count() == if want == "\n" { text.matches('\n').count() - out.matches("\r\n").count() } else { out.matches("\r\n").count() },
        "{src:?} formats to {out:?}, where not every line ends with {want:?}"
    );
    ensure!(!text.contains('\r'), "{src:?} formats to {out:?}, with a stray carriage return");
    // Verbatim code keeps what was there
    if src.contains("# fmt:") || toml.contains("skip") {
        return Ok(());
    }
    ensure!(text.is_empty() || text.ends_with('\n'), "{src:?} formats to {out:?}, without a final line ending");
    ensure!(!text.ends_with("\n\n"), "{src:?} formats to {out:?}, which ends with a blank line");
    ensure!(!text.starts_with('\n'), "{src:?} formats to {out:?}, which starts with a blank line");
    // A table with a cell that cannot be made flat is kept verbatim (F08 is about those that can)
    if toml.contains("table") || src.contains("tribble") || src.contains("fcase") {
        return Ok(());
    }
    let tabs = toml.contains("indent-style = \"tab\"");
    let width: usize = toml.lines().find_map(|l| l.strip_prefix("indent-width = ")).map_or(2, |w| w.parse().unwrap());
    let (mut blank, mut indent, mut depth) = (0, Some(String::new()), 0i32);
    let parts = parts(&text);
    for (i, (c, part)) in parts.iter().enumerate() {
        if *part == Part::Quoted {
            indent = None;
            blank = 0;
            continue;
        }
        if *c == '\n' {
            if i > 0 && parts[i - 1].1 != Part::Quoted {
                ensure!(!matches!(parts[i - 1].0, ' ' | '\t'), "{src:?} formats to {out:?}, with whitespace at the end of a line");
            }
            if i == 0 || parts[i - 1].0 == '\n' && parts[i - 1].1 != Part::Quoted {
                blank += 1;
            } else {
                blank = 0;
            }
            // Two between statements of the file, one elsewhere
            ensure!(blank <= if depth == 0 { 2 } else { 1 }, "{src:?} formats to {out:?}, with {blank} blank lines in a row");
            indent = Some(String::new());
            continue;
        }
        if *part == Part::Code {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ => {}
            }
        }
        if let Some(so_far) = &mut indent {
            if *c == ' ' || *c == '\t' {
                so_far.push(*c);
            } else {
                let ok = if tabs { so_far.chars().all(|c| c == '\t') } else { so_far.chars().all(|c| c == ' ') && so_far.len() % width == 0 };
                ensure!(ok, "{src:?} formats to {out:?}, with a line indented by {so_far:?}");
                indent = None;
            }
        }
    }
    Ok(())
}

impl Check for Fmt {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.0
    }
    fn bounds(&self, tier: Tier) -> String {
        describe(tier)
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        programs(tier, emit);
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        self.plain(case, ctx).map_err(|failure| self.named(case, failure))
    }
}
