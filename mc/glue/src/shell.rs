use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

use mc::{ensure, ensure_eq, Check, Ctx, Scratch, Tier, Verdict};
use serde::{Deserialize, Serialize};
use xtask::glue;

// ---------------------------------------------------------------------------------------
// The command that is run: prints its arguments, input, directory and variables as JSON

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Seen {
    args: Vec<String>,
    stdin: Vec<u8>,
    cwd: PathBuf,
    vars: Vec<Option<String>>,
}

pub fn helper() -> ! {
    let args: Vec<String> = std::env::args().skip(2).collect();
    match args.first().map(|s| s.as_str()) {
        Some("exit") => {
            println!("output");
            std::process::exit(args[1].parse().unwrap())
        }
        Some("abort") => {
            println!("output");
            std::process::abort()
        }
        Some("output") => {
            print!("{}", args[1]);
            std::process::exit(0)
        }
        _ => {}
    }
    let mut stdin = Vec::new();
    std::io::stdin().read_to_end(&mut stdin).unwrap();
    let seen = Seen { args, stdin, cwd: std::env::current_dir().unwrap(), vars: vars() };
    println!("{}", serde_json::to_string(&seen).unwrap());
    std::process::exit(0)
}

fn command() -> &'static str {
    static COMMAND: OnceLock<String> = OnceLock::new();
    COMMAND.get_or_init(|| {
        // A copy that an unprivileged user can run for sure, at a path without blanks or quotes
        let home = Box::leak(Box::new(Scratch::on_disk()));
        let copy = home.path().join("helper");
        std::fs::copy(std::env::current_exe().unwrap(), &copy).unwrap();
        format!("{} --helper", copy.to_str().unwrap())
    })
}

const VARS: &[&str] = &["MC_GLUE_X", "MC_GLUE_Y"];
const START: &[Option<&str>] = &[None, Some("y0")];

fn vars() -> Vec<Option<String>> {
    VARS.iter().map(|v| std::env::var(v).ok()).collect()
}

// ---------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Op {
    /// `pushd`, to an index of [DIRECTORIES]
    Directory(usize),
    /// `pushenv` of a variable with a value
    Variable(usize, usize),
    /// Drop the last guard
    Pop,
}

/// All exist from everywhere the histories can go to
const DIRECTORIES: &[&str] = &["a", ".", "a/../a"];
const VALUES: &[&str] = &["1", "", "y0"];

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum What {
    Nothing,
    File,
    EmptyDirectory,
    Tree,
    LinkToFile,
    LinkToTree,
    BelowFile,
}

#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    /// Arguments as they are written
    Line(String),
    /// Input of a command, its length if it is long
    Input(String, usize),
    Output(String),
    Exit(i32),
    Abort,
    NotFound,
    /// The command itself is quoted, between other quotes
    Quoted(String),
    /// Source to reformat
    Reformat(String),
    /// Guards pushed and popped many times, nested this deep
    Deep(usize),
    /// A tree of this depth and this many files
    RemoveLarge(usize, usize),
    Guards { ops: Vec<Op>, run: bool },
    Remove { what: What, spelling: usize },
}

const LINE_TOKENS: &[&str] = &["a", "--b=c", " ", "  ", "\t", "'", "'", "\"", "\\", "$HOME", "*", ";", "é"];
/// The first ones are explored deeper
const CORE_TOKENS: &[&str] = &["a", " ", "'", "b\t"];

fn expected_arguments(line: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut word = String::new();
    let mut quoted = false;
    for c in line.chars() {
        match (quoted, c) {
            (false, '\'') => {
                if !word.is_empty() {
                    out.push(std::mem::take(&mut word));
                }
                quoted = true;
            }
            (true, '\'') => {
                out.push(std::mem::take(&mut word));
                quoted = false;
            }
            (false, ' ' | '\t' | '\n' | '\r' | '\u{c}') => {
                if !word.is_empty() {
                    out.push(std::mem::take(&mut word));
                }
            }
            (_, c) => word.push(c),
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}

pub struct Shell;

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}

fn run(line: &str) -> Result<String, String> {
    // Checks are single-threaded, and this is the variant that prints nothing
    xtask::glue::run_process(line.to_string(), false, None).map_err(|e| format!("{e:?}"))
}

fn run_with(line: &str, input: &[u8]) -> Result<String, String> {
    xtask::glue::run_process(line.to_string(), false, Some(input)).map_err(|e| format!("{e:?}"))
}

fn seen(output: &str) -> Result<Seen, String> {
    serde_json::from_str(output).map_err(|e| format!("the output {output:?} is not what the command wrote: {e}"))
}

/// Against `rustfmt` of the stable toolchain, started here
fn reformat(text: &str, ctx: &mut Ctx) -> Verdict {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let before = std::env::var_os("RUSTUP_TOOLCHAIN");
    let mut child = Command::new("rustfmt")
        .args(["--edition", "2024", "--config", "newline_style=Unix"])
        .env("RUSTUP_TOOLCHAIN", "stable")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("rustfmt: {e}"))?;
    child.stdin.take().unwrap().write_all(text.as_bytes()).unwrap();
    let output = child.wait_with_output().unwrap();
    let want = output.status.success().then(|| format!("{}\n", String::from_utf8(output.stdout).unwrap().trim()));
    let preamble = "//! Generated file, do not edit by hand, see `xtask/codegen`\n\n";
    let got = xtask::reformat_without_preamble(text).ok();
    ensure_eq!(got, want, "{text:?} reformatted");
    let got = xtask::reformat(text).ok();
    ensure_eq!(got, want.as_ref().map(|want| format!("{preamble}{want}")), "{text:?} reformatted, with preamble");
    let got = xtask::reformat_with_command(text, "x y").ok();
    let preamble = "//! This is a generated file. Don't modify it by hand! Run 'x y' to re-generate the file.\n\n";
    ensure_eq!(got, want.as_ref().map(|want| format!("{preamble}{want}")), "{text:?} reformatted, with the command in the preamble");
    ensure_eq!(std::env::var_os("RUSTUP_TOOLCHAIN"), before, "toolchain after reformatting {text:?}");
    ctx.step(3);
    ctx.outcome(if want.is_some() { "reformatted" } else { "no Rust" });
    Ok(())
}

impl Shell {
    fn guards(&self, root: &Path, ops: &[Op], run_command: bool, ctx: &mut Ctx) -> Verdict {
        for (var, value) in VARS.iter().zip(START) {
            match value {
                Some(value) => std::env::set_var(var, value),
                None => std::env::remove_var(var),
            }
        }
        // a/a/a...: every directory can be entered from every other
        let mut deep = root.to_path_buf();
        for _ in 0..=ops.len() {
            deep.push("a");
        }
        std::fs::create_dir_all(&deep).unwrap();

        enum Guard {
            Directory(#[allow(dead_code)] glue::Pushd),
            Variable(#[allow(dead_code)] glue::Pushenv),
        }
        // The guards, and what holds while each is the last one
        let mut guards: Vec<Guard> = Vec::new();
        let mut worlds: Vec<(PathBuf, Vec<Option<String>>)> = vec![(root.to_path_buf(), vars())];
        let compare = |world: &(PathBuf, Vec<Option<String>>), done: &str| -> Verdict {
            ensure_eq!(std::env::current_dir().unwrap(), world.0, "working directory after {done}");
            ensure_eq!(vars(), world.1, "variables after {done}");
            Ok(())
        };
        for (i, op) in ops.iter().enumerate() {
            let mut world = worlds.last().unwrap().clone();
            match op {
                Op::Directory(d) => {
                    // Absolute, or relative to where we are
                    guards.push(Guard::Directory(match *d < DIRECTORIES.len() {
                        true => glue::pushd(DIRECTORIES[*d]),
                        false => glue::pushd(root),
                    }));
                    match d {
                        0 | 2 => world.0.push("a"),
                        1 => {}
                        _ => world.0 = root.to_path_buf(),
                    }
                    worlds.push(world);
                }
                Op::Variable(var, value) => {
                    guards.push(Guard::Variable(glue::pushenv(VARS[*var], VALUES[*value])));
                    world.1[*var] = Some(VALUES[*value].to_string());
                    worlds.push(world);
                }
                Op::Pop => {
                    guards.pop();
                    worlds.pop();
                }
            }
            compare(worlds.last().unwrap(), &format!("{:?}", &ops[..=i]))?;
            ctx.step(1);
            ctx.state(&(&worlds.last().unwrap().0.strip_prefix(root).unwrap(), &worlds.last().unwrap().1, guards.len()));
        }
        if run_command {
            let got = seen(&run(command())?)?;
            ensure_eq!((got.cwd, got.vars), *worlds.last().unwrap(), "what a command sees after {ops:?}");
            ctx.step(1);
        }
        // All others, in reverse order
        while guards.pop().is_some() {
            worlds.pop();
            compare(worlds.last().unwrap(), &format!("{ops:?}, and guards dropped down to {}", guards.len()))?;
            ctx.step(1);
        }
        ctx.outcome(match ops.len() {
            0 => "no guards",
            _ => "guards",
        });
        Ok(())
    }

    fn remove(&self, root: &Path, what: &What, spelling: usize, ctx: &mut Ctx) -> Verdict {
        let target = root.join("target");
        let outside = root.join("other");
        std::fs::create_dir_all(outside.join("x/y")).unwrap();
        std::fs::write(outside.join("x/file"), "1").unwrap();
        std::fs::write(root.join("target2"), "2").unwrap();
        std::fs::create_dir(root.join("target.d")).unwrap();
        match what {
            What::Nothing => {}
            What::File => std::fs::write(&target, "3").unwrap(),
            What::EmptyDirectory => std::fs::create_dir(&target).unwrap(),
            What::Tree => {
                std::fs::create_dir_all(target.join("x/y/z")).unwrap();
                std::fs::write(target.join("x/y/file"), "4").unwrap();
                std::os::unix::fs::symlink(&outside, target.join("x/link")).unwrap();
            }
            What::LinkToFile => std::os::unix::fs::symlink(outside.join("x/file"), &target).unwrap(),
            What::LinkToTree => std::os::unix::fs::symlink(&outside, &target).unwrap(),
            What::BelowFile => std::fs::write(&target, "5").unwrap(),
        }
        for entry in walk(root) {
            let _ = std::os::unix::fs::lchown(&entry, Some(65534), Some(65534));
        }
        let mut path = match spelling {
            0 => target.clone(),
            1 => PathBuf::from("target"),
            _ => PathBuf::from("other/../target"),
        };
        if *what == What::BelowFile {
            path.push("x");
        }
        let mut expected: Vec<PathBuf> = walk(root);
        if *what != What::BelowFile {
            expected.retain(|p| !p.starts_with(&target));
        }
        let result = mc::guard(|| glue::rm_rf(&path))?.map_err(|e| format!("{e:?}"));
        ensure_eq!(result, Ok(()), "removing {what:?} as {path:?}");
        ensure_eq!(walk(root), expected, "what is left after removing {what:?} as {path:?}");
        ctx.step(1);
        ctx.outcome("removed");
        Ok(())
    }
}

/// Everything below, links not followed
fn walk(dir: &Path) -> Vec<PathBuf> {
    let mut out = Vec::new();
    for entry in std::fs::read_dir(dir).unwrap() {
        let entry = entry.unwrap();
        out.push(entry.path());
        if entry.file_type().unwrap().is_dir() {
            out.extend(walk(&entry.path()));
        }
    }
    out.sort();
    out
}

impl Check for Shell {
    type Case = Case;
    fn id(&self) -> &'static str {
        "T04"
    }
    fn workers(&self) -> usize {
        // The environment is process-wide
        1
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all command lines of up to {} tokens out of {} and up to {} out of {}; every well nested history of up to {} guard operations over {} directories, {} variables and {} values, with a command run inside of each up to {}; inputs and outputs of up to 1 MB; every way a command can end; every character (about 700) bare and quoted, arguments of up to 60000 characters and as many arguments; up to {} pairs of guards at the same time; removal of every kind of path, trees of up to 100 levels; all sequences of up to {} of 10 items to reformat",
            tier.pick(3, 4), LINE_TOKENS.len(), tier.pick(5, 7), CORE_TOKENS.len(), tier.pick(5, 6), DIRECTORIES.len() + 1, VARS.len(), VALUES.len(), tier.pick(2, 3), tier.pick(300, 1000), tier.pick(1, 2)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["Quotes in a command line are closed.".into(), "Guards are dropped last in, first out.".into()]
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        for code in [0, 1, 2, 3, 77, 101, 126, 127, 128, 255] {
            emit(Case::Exit(code));
        }
        emit(Case::Abort);
        emit(Case::NotFound);
        for text in ["", "a", " a b \n", "\n\na\n\n", "a\nb", "é\t", "  "] {
            emit(Case::Output(text.to_string()));
        }
        for text in ["", "a", " a b \n", "\r\n\0", "é"] {
            for repeat in [1, 1000, 20_000, 200_000] {
                emit(Case::Input(text.to_string(), repeat));
            }
        }
        for line in ["", " a", "'a' ", " 'b c'  d '' ", "\t'\"'\ta"] {
            emit(Case::Quoted(line.to_string()));
        }
        let items: &[&str] = &["fn  a ( ) { }", "use b ;", "// c", "struct D{e:u8}", "\r\n", "\n\n\n", "mod é{}", "fn (", "\"x\\ty\"", "#![allow(x)]"];
        mc::texts(items, tier.pick(1, 2), &mut |text| emit(Case::Reformat(text)));
        for depth in [1, 2, 8, 9, 16, 31, 32, 33, 64, 100, 128, 129, 255, 256, 257, tier.pick(300, 1000)] {
            emit(Case::Deep(depth));
        }
        for depth in [1, 2, 8, 16, 33, 64, 100] {
            for files in [0, 1, 10, tier.pick(100, 1000)] {
                emit(Case::RemoveLarge(depth, files));
            }
        }
        for what in [
            What::Nothing, What::File, What::EmptyDirectory, What::Tree, What::LinkToFile, What::LinkToTree, What::BelowFile,
        ] {
            for spelling in 0..3 {
                emit(Case::Remove { what: what.clone(), spelling });
            }
        }

        // Guards
        let mut pushes: Vec<Op> = (0..=DIRECTORIES.len()).map(Op::Directory).collect();
        for var in 0..VARS.len() {
            for value in 0..VALUES.len() {
                pushes.push(Op::Variable(var, value));
            }
        }
        mc::words(pushes.len() + 1, tier.pick(5, 6), &mut |word| {
            let mut depth = 0i32;
            let mut ops = Vec::new();
            for i in word {
                match pushes.get(*i) {
                    Some(push) => {
                        depth += 1;
                        ops.push(*push);
                    }
                    None => {
                        depth -= 1;
                        ops.push(Op::Pop);
                    }
                }
                if depth < 0 {
                    return;
                }
            }
            let run = word.len() <= tier.pick(2, 3);
            emit(Case::Guards { ops, run });
        });

        // Command lines
        let mut lines = std::collections::BTreeSet::new();
        mc::texts(LINE_TOKENS, tier.pick(3, 4), &mut |line| {
            lines.insert((line.len(), line));
        });
        mc::texts(CORE_TOKENS, tier.pick(5, 7), &mut |line| {
            lines.insert((line.len(), line));
        });
        // Every character, and every length and number of arguments
        for c in mc::characters().filter(|c| !matches!(c, '\'' | '\0')) {
            for line in [format!("a{c}b{c} {c}c"), format!("'a{c}b {c}'{c}'{c}'")] {
                lines.insert((line.len(), line));
            }
        }
        for n in (1..=tier.pick(40, 300)).chain([1000, 1023, 1024, 4095, 4096, 10_000, 60_000]) {
            for line in [
                "a".repeat(n), format!("'{}'", " ".repeat(n)), "a ".repeat(n), "''".repeat(n), "'a b' ".repeat(n), format!("a{}b", " ".repeat(n)),
                format!("a '{}' b 'c'", "é".repeat(n)),
            ] {
                lines.insert((line.len(), line));
            }
        }
        for (_, line) in lines {
            if line.matches('\'').count() % 2 == 0 {
                emit(Case::Line(line));
            }
        }
    }
    fn prepare(&self) {
        command();
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        if let Case::Reformat(text) = case {
            return reformat(text, ctx);
        }
        SCRATCH.with(|scratch| {
            let root = scratch.path();
            if matches!(case, Case::Remove { .. } | Case::RemoveLarge(..) | Case::Deep(_)) {
                scratch.clear();
            }
            scratch.enter(|| match case {
                Case::Line(line) => {
                    // Blanks around, so that quoted first words are not glued to the command
                    let got = seen(&run(&format!("{} {line}", command()))?)?;
                    ensure_eq!(got.args, expected_arguments(line), "arguments of the command line {line:?}");
                    ensure!(got.stdin.is_empty(), "input without any given");
                    ctx.step(1);
                    ctx.state(&got.args);
                    ctx.outcome("command line");
                    Ok(())
                }
                Case::Input(text, repeat) => {
                    let input = text.repeat(*repeat);
                    let got = seen(&run_with(command(), input.as_bytes())?)?;
                    ensure!(got.stdin == input.as_bytes(), "input {text:?} repeated {repeat} times arrives as {} bytes", got.stdin.len());
                    ctx.step(1);
                    ctx.outcome("input");
                    Ok(())
                }
                Case::Output(text) => {
                    let got = run(&format!("{} output '{text}'", command()))?;
                    ensure_eq!(got, text.trim(), "output of a command that prints {text:?}");
                    ctx.step(1);
                    ctx.outcome("output");
                    Ok(())
                }
                Case::Exit(code) => {
                    for got in [run(&format!("{} exit {code}", command())), run_with(&format!("{} exit {code}", command()), b"")] {
                        match code {
                            0 => ensure_eq!(got, Ok("output".to_string()), "result of a command that succeeds"),
                            _ => ensure!(got.is_err(), "a command that exits with {code} gives {got:?}"),
                        }
                    }
                    ctx.step(2);
                    ctx.outcome(if *code == 0 { "success" } else { "failure" });
                    Ok(())
                }
                Case::Abort => {
                    let got = run(&format!("{} abort", command()));
                    ensure!(got.is_err(), "a command that is killed gives {got:?}");
                    ctx.step(1);
                    ctx.outcome("failure");
                    Ok(())
                }
                Case::NotFound => {
                    let got = run(&format!("{}/nothing-here a", root.display()));
                    ensure!(got.is_err(), "a command that does not exist gives {got:?}");
                    ctx.step(1);
                    ctx.outcome("failure");
                    Ok(())
                }
                Case::Quoted(line) => {
                    let (program, flag) = command().split_once(' ').unwrap();
                    let got = seen(&run(&format!("'{program}' '{flag}' {line}"))?)?;
                    ensure_eq!(got.args, expected_arguments(line), "arguments of the quoted command with {line:?}");
                    ctx.step(1);
                    ctx.outcome("command line");
                    Ok(())
                }
                Case::Deep(depth) => {
                    // One pair of guards after the other, all alive at the same time
                    for at in 0..*depth {
                        std::fs::create_dir_all(root.join(format!("d{at}"))).unwrap();
                    }
                    for (var, value) in VARS.iter().zip(START) {
                        match value {
                            Some(value) => std::env::set_var(var, value),
                            None => std::env::remove_var(var),
                        }
                    }
                    let start = (std::env::current_dir().unwrap(), vars());
                    let mut guards = Vec::new();
                    let mut worlds = vec![start];
                    for at in 0..*depth {
                        let mut world = worlds.last().unwrap().clone();
                        let directory = if at % 2 == 0 { root.join(format!("d{at}")) } else { PathBuf::from(format!("../d{at}")) };
                        world.0 = root.join(format!("d{at}"));
                        world.1[at % 2] = Some(format!("{at}"));
                        guards.push((glue::pushenv(VARS[at % 2], &format!("{at}")), glue::pushd(directory)));
                        worlds.push(world);
                        ensure_eq!((std::env::current_dir().unwrap(), vars()), *worlds.last().unwrap(), "state inside of {} pairs of guards", at + 1);
                        ctx.step(1);
                    }
                    let inner = seen(&run(command())?)?;
                    ensure_eq!((inner.cwd, inner.vars), *worlds.last().unwrap(), "what a command sees inside of {depth} pairs of guards");
                    while guards.pop().is_some() {
                        worlds.pop();
                        ensure_eq!((std::env::current_dir().unwrap(), vars()), *worlds.last().unwrap(), "state with {} of {depth} pairs of guards left", guards.len());
                        ctx.step(1);
                    }
                    ctx.outcome("guards");
                    Ok(())
                }
                Case::Reformat(_) => unreachable!("handled outside of the scratch directory"),
                Case::RemoveLarge(depth, files) => {
                    let target = root.join("target");
                    let mut dir = target.clone();
                    for level in 0..*depth {
                        dir.push(format!("é {level}"));
                    }
                    std::fs::create_dir_all(&dir).unwrap();
                    for file in 0..*files {
                        std::fs::write(dir.join(format!("f{file}")), "1").unwrap();
                        std::fs::write(target.join(format!(".f{file}")), "1").unwrap();
                    }
                    std::fs::write(root.join("target.R"), "2").unwrap();
                    for entry in walk(root) {
                        let _ = std::os::unix::fs::lchown(&entry, Some(65534), Some(65534));
                    }
                    let result = mc::guard(|| glue::rm_rf(&target))?.map_err(|e| format!("{e:?}"));
                    ensure_eq!(result, Ok(()), "removing a tree of depth {depth} with {files} files");
                    ensure_eq!(walk(root), vec![root.join("target.R")], "what is left after removing a tree of depth {depth} with {files} files");
                    ctx.step(1);
                    ctx.outcome("removed");
                    Ok(())
                }
                Case::Guards { ops, run } => self.guards(root, ops, *run, ctx),
                Case::Remove { what, spelling } => self.remove(root, what, *spelling, ctx),
            })
        })
    }
}
