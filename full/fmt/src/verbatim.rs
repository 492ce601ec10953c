//! F06: code that is marked to be skipped.
use mc::{Check, Ctx, Tier, Verdict, ensure};
use serde::{Deserialize, Serialize};

use crate::fmt::ending;
use crate::r#gen::*;
use crate::r;

#[derive(Serialize, Deserialize, Clone, PartialEq)]
pub enum Expect {
    /// The code stays as it is; around it is what would be around a plain name
    Placeholder,
    /// The code stays as it is
    Contains,
    /// All of the text stays as it is
    Whole,
    /// What looks like a directive is one as little as another comment of the same length
    NoDirective(String),
    /// The setting makes no difference
    NoSetting,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    before: String,
    code: String,
    after: String,
    toml: String,
    crlf: bool,
    expect: Expect,
}

pub struct Skip;

const NAME: &str = "zz9";

impl Case {
    fn with(&self, code: &str) -> String {
        let src = format!("{}{code}{}", self.before, self.after);
        if self.crlf { src.replace('\n', "\r\n") } else { src }
    }
}

/// Blocks of statements, with a hole
const BLOCKS: &[(&str, &str)] = &[
    ("", "\n"),
    ("a=1\n\n", "\nb=2\n"),
    ("{\n", "\n}"),
    ("{ a=1\n# c\n", "\n\n\nb=2}"),
    ("f(\\(x) {\n  a=1\n", "\n  b=2\n})"),
    ("if(a){\n", "\n}else{b=2}"),
    ("function(x){\n", "\n}"),
    ("for(i in x){\n", " # c\n}"),
];

/// Arguments, with a hole
const ARGUMENTS: &[(&str, &str)] = &[
    ("f(\n", "\n)"),
    ("f(a,\n", "\n)"),
    ("f(a,\n", ",\nb )"),
    ("f( a,\n", ", b )"),
    ("a[\n", ", b]"),
    ("x[[\n", "\n]]"),
    ("y = g( a, f(\n", "\n) )"),
    ("f(a,\nx = 1 ,\n", ",\n function() { b })"),
];

/// Code by itself, in all spacings
fn codes(tier: Tier, f: &mut dyn FnMut(&str)) {
    let mut emit = |p: Vec<Tok>, k: usize| {
        perturb(&p, k, &[Gap::None, Gap::Wide, Gap::Line, Gap::Blanks, Gap::Trailing, Gap::Own], &mut |gaps| {
            if gaps.iter().any(|(i, _)| *i == 0 || *i == p.len()) {
                return;
            }
            let code = render(&p, gaps);
            // One expression that is one statement
            let Some(tree) = r::parse(&code) else { return };
            if tree.tree().expressions().into_iter().count() == 1 && !r::incomplete(&tree.syntax()) {
                f(&code);
            }
        });
    };
    for p in all(PRODUCTIONS) {
        emit(name(p), 2);
    }
    depth2(CORE, CORE, &mut |p| emit(p, tier.pick(0, 1)));
    depth2(SMALL, SMALL, &mut |p| emit(p, tier.pick(1, 2)));
}

impl Check for Skip {
    type Case = Case;
    fn id(&self) -> &'static str {
        "F06"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "105 constructs by themselves with up to 2 gaps changed in 6 ways (no space, wide space, line breaks, comments), 37 x 37 nested ones{}, 17 x 17 with up to {} changed gaps; each below a skip directive as a statement in {} blocks and as an argument in {} calls; calls of functions on the skip list as statements and in every hole of 105 constructs; all heads of files of up to {} lines out of 12, with and without code; comments that look like directives in places where they are none; LF and CRLF, fixed and automatic line endings",
            tier.pick("", " with up to 1 changed gap"),
            tier.pick(1, 2),
            BLOCKS.len(),
            ARGUMENTS.len(),
            tier.pick(4, 5),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let case = |before: &str, code: &str, after: &str, toml: &str, crlf, expect| Case { before: before.into(), code: code.into(), after: after.into(), toml: toml.into(), crlf, expect };
        codes(tier, &mut |code| {
            for (i, (before, after)) in BLOCKS.iter().enumerate() {
                let before = format!("{before}# fmt: skip\n");
                emit(case(&before, code, after, "", false, Expect::Placeholder));
                if i % 3 == 1 {
                    emit(case(&before, code, after, "line-width = 8\nassignment-style = \"equal\"", true, Expect::Placeholder));
                    emit(case(&before, code, after, "line-ending = \"lf\"\npersistent-line-breaks = false", true, Expect::Placeholder));
                    emit(case(&before, code, after, "line-ending = \"crlf\"\nindent-style = \"tab\"", false, Expect::Placeholder));
                }
            }
            for (i, (before, after)) in ARGUMENTS.iter().enumerate() {
                for (j, name) in ["", "n = ", "'n'=", "n=\n"].iter().enumerate() {
                    let before = format!("{before}# fmt: skip\n");
                    let code = format!("{name}{code}");
                    emit(case(&before, &code, after, "", false, Expect::Placeholder));
                    if (i + j) % 4 == 1 {
                        emit(case(&before, &code, after, "line-width = 8\nassignment-style = \"equal\"", true, Expect::Placeholder));
                    }
                }
            }
            // Calls on the skip list
            if let Some(rest) = code.strip_prefix("f ") && is_call(code) {
                for (before, after) in BLOCKS {
                    for head in ["f ", "p::f", "p:::f "] {
                        for (toml, crlf) in [("skip = [\"f\"]", false), ("skip = [\"g\", \"f\"]\nline-width = 8", true)] {
                            emit(case(before, &format!("{head}{rest}"), after, toml, crlf, Expect::Placeholder));
                        }
                    }
                }
                for outer in PRODUCTIONS {
                    let outer = toks(outer);
                    for hole in 0..holes(&outer) {
                        let whole = name_of(&outer, hole);
                        let Some((before, after)) = whole.split_once(" @@ ") else { continue };
                        let before = before.replace("f ", "h ");
                        let after = after.replace("f ", "h ");
                        emit(case(&format!("{before} "), code, &format!(" {after}"), "skip = [\"f\"]", false, Expect::Contains));
                    }
                }
                // Others are not skipped
                for head in if rest.contains('f') { &[][..] } else { &["g ", "x$f ", "f$f ", "f()", "(f) ", "ff ", "f. "][..] } {
                    emit(case("a=1\n", &format!("{head}{rest}"), "\nb=2", "skip = [\"f\"]", false, Expect::NoSetting));
                }
            }
        });
        // What looks like a directive
        for p in all(PRODUCTIONS) {
            let code = render(&name(p), &[]);
            for (before, after) in BLOCKS {
                for directive in ["# fmt: skip", "# fmt: table", "# fmt: skip file"] {
                    let other = directive.replace("fmt", "abc");
                    // behind the statement before, and behind the statement
                    emit(case(&format!("{before}x=1 {directive}\n"), &code, after, "", false, Expect::NoDirective(other.clone())));
                    emit(case(before, &format!("{code} {directive}"), after, "", false, Expect::NoDirective(other.clone())));
                    emit(case(&format!("{before}{code}\n{directive}\n"), "", "", "", false, Expect::NoDirective(other.clone())));
                    emit(case(&format!("{before}f( x=1, {directive}\n"), &code, &format!("){after}"), "", false, Expect::NoDirective(other.clone())));
                }
                for (directive, other) in [
                    ("# fmt: skipp", "# abc: skipp"), ("# fmt:  skips", "# abc:  skips"), ("# fmts: skip", "# abcs: skip"), ("# fmt skip", "# abc skip"), ("# skip", "# abcd"),
                    ("# fmt: off", "# abc: off"), ("# FMT: skip", "# ABC: skip"), ("# fmt: skip all", "# abc: skip all"), ("#' fmt: skip", "#' abc: skip"), ("# see fmt: skip", "# see abc: skip"),
                    ("# Generated at x", "# ABCDEFGHI at x"),
                ] {
                    emit(case(&format!("{before}{directive}\n"), &code, after, "", false, Expect::NoDirective(other.into())));
                }
                // Below code, this is for the head of a file
                for (directive, other) in [("# fmt: skip file", "# abc: skip file"), ("# Generated by x", "# ABCDEFGHI by x")] {
                    emit(case(&format!("x=1\n{before}{directive}\n"), &code, after, "", false, Expect::NoDirective(other.into())));
                }
            }
        }
        // Heads of files
        let lines = ["# c", "", "# fmt: skip file", "#' roxygen", "# Generated by x", "# fmt: skip", "  # fmt:skip file", "#!/usr/bin/env Rscript", "\t", "a=1", "{", "}"];
        mc::words(lines.len(), tier.pick(4, 5), &mut |word| {
            let head: Vec<&str> = word.iter().map(|i| lines[*i]).collect();
            let code = head.iter().position(|l| matches!(l.trim(), "a=1" | "{" | "}")).unwrap_or(head.len());
            let has = |d: &str| head[..code].iter().any(|l| l.replace(' ', "") == d.replace(' ', ""));
            // The first comment may say that the file is generated
            let first = head[..code].iter().find(|l| l.trim().starts_with('#'));
            let skipped = has("# fmt: skip file") || first.is_some_and(|l| l.starts_with("# Generated by"));
            for rest in ["\n", "\nb=2", "\n\n\nx  =  'a'  \n\n\n# d\n\n\n"] {
                let rest = if code == head.len() && rest == "\n" { "\n" } else { rest };
                for (toml, crlf) in [("", false), ("", true), ("line-ending = \"lf\"", true), ("line-ending = \"crlf\"", false)] {
                    let text = format!("{}{rest}", head.join("\n"));
                    // A file without code has nothing to skip
                    if skipped && (code < head.len() || rest.contains('=')) {
                        emit(case("", &text, "", toml, crlf, Expect::Whole));
                    }
                }
            }
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let src = case.with(&case.code);
        let toml = &case.toml;
        let go = |src: &str, toml: &str| match r::format(src, toml) {
            None => Ok(None),
            Some(Ok(out)) => Ok(Some(out)),
            Some(Err(e)) => Err(format!("{src:?} does not format: {e}")),
        };
        let Some(out) = go(&src, toml)? else {
            ctx.outcome("rejected");
            return Ok(());
        };
        ctx.step(1);
        ctx.state(&out);
        let end = |s: &str| s.replace("\r\n", "\n").replace('\n', ending(toml, &src));
        match &case.expect {
            Expect::Placeholder => {
                let Some(around) = go(&case.with(NAME), toml)? else {
                    ctx.outcome("rejected");
                    return Ok(());
                };
                ctx.outcome("around a placeholder");
                // Line endings of the two texts may be inferred from different lines
                let around = around.replace("\r\n", "\n").replace('\n', ending(toml, &src));
                let want = around.replace(NAME, &end(&case.code));
                ensure!(out == want, "under [{toml}], {src:?} formats to {out:?}, where {:?} should be kept, as in {want:?}", case.code);
            }
            Expect::Contains => {
                ctx.outcome("contained");
                ensure!(out.contains(&end(&case.code)), "under [{toml}], {src:?} formats to {out:?}, where {:?} should be kept", case.code);
            }
            Expect::Whole => {
                ctx.outcome("whole file");
                ensure!(out == end(&src), "under [{toml}], {src:?} formats to {out:?}, but the file should be skipped");
            }
            Expect::NoDirective(other) => {
                ctx.outcome("no directive");
                let own = other.replace("abc", "fmt").replace("ABC:", "FMT:").replace("ABCDEFGHI", "Generated").replace("# abcd", "# skip");
                let (there, here) = (go(&src.replace(&own, other), toml)?, out.replace(&own, other));
                ensure!(there.as_deref() == Some(&here), "{src:?} formats to {out:?}, but with {other:?} in place of {own:?} to {there:?}");
            }
            Expect::NoSetting => {
                ctx.outcome("not on the list");
                let without = go(&src, "")?;
                ensure!(without.as_deref() == Some(&out), "under [{toml}], {src:?} formats to {out:?}, but without to {without:?}");
            }
        }
        Ok(())
    }
}

fn is_call(code: &str) -> bool {
    r::parse(code).is_some_and(|t| {
        t.tree().expressions().into_iter().next().is_some_and(|e| match e {
            air_r_syntax::AnyRExpression::RCall(call) => call.function().is_ok_and(|f| matches!(f, air_r_syntax::AnyRExpression::RIdentifier(_))),
            _ => false,
        })
    })
}

/// The construct with only one hole left
fn name_of(outer: &[Tok], hole: usize) -> String {
    let keep = [Tok { text: "@0@".into(), newline: false }];
    let p = name(fill(outer, &[(hole, &keep)]));
    format!(" {} ", render(&p, &[]).replace('\n', " \n ")).replace("@0@", "@@")
}
