//! Compares the repository's own snapshots with what its code produces on top of the stand-ins.
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    for entry in std::fs::read_dir(dir).unwrap() {
        let path = entry.unwrap().path();
        if path.is_dir() {
            files(&path, out);
        } else if path.extension().is_some_and(|e| e == "R") {
            out.push(path);
        }
    }
}
fn expected(path: &Path) -> String {
    let snap = PathBuf::from(format!("{}.snap", path.display()));
    let text = std::fs::read_to_string(&snap).unwrap();
    let body = text.splitn(3, "---\n").nth(2).unwrap();
    normal(body)
}
fn normal(s: &str) -> String {
    s.replace("\r\n", "\n").trim().to_string()
}
fn report(path: &Path, expected: &str, actual: &str, verbose: bool) -> bool {
    if expected == actual {
        return true;
    }
    println!("DIFFERS {}", path.display());
    if verbose {
        std::fs::write("/tmp/expected.txt", expected).unwrap();
        std::fs::write("/tmp/actual.txt", actual).unwrap();
        let _ = std::process::Command::new("diff").args(["-U2", "/tmp/expected.txt", "/tmp/actual.txt"]).status();
    }
    false
}
fn parser(verbose: bool, only: Option<&str>) {
    let mut all = Vec::new();
    files(Path::new("/repo/crates/air_r_parser/tests/snapshots"), &mut all);
    all.sort();
    let (mut same, mut n) = (0, 0);
    for path in all {
        if only.is_some_and(|o| !path.to_str().unwrap().contains(o)) {
            continue;
        }
        let content = std::fs::read_to_string(&path).unwrap();
        let parsed = air_r_parser::parse(&content, air_r_parser::RParserOptions::default());
        let mut s = String::new();
        write!(s, "\n## Input\n\n```R\n{content}\n```\n\n\n## AST\n\n```\n{:#?}\n```\n\n## CST\n\n```\n{:#?}\n```\n\n", parsed.tree(), parsed.syntax()).unwrap();
        if let Some(error) = parsed.error() {
            write!(s, "## Errors\n\n```\n{error}\n```\n\n").unwrap();
        }
        n += 1;
        same += report(&path, &expected(&path), &normal(&s), verbose) as usize;
    }
    println!("parser: {same} of {n} snapshots are the same");
}
fn options_for(code: &str) -> air_r_formatter::context::RFormatOptions {
    let lines: Vec<&str> = code
        .lines()
        .skip_while(|line| line.is_empty())
        .take_while(|line| line.starts_with("#'"))
        .map(|line| line.strip_prefix("#'").unwrap().trim_start())
        .collect();
    let settings = workspace::toml::parse_air_inline_toml(&lines.join("\n")).unwrap();
    let settings = settings.into_settings(Path::new("")).unwrap();
    settings.format.to_format_options(code)
}
fn formatter(verbose: bool, only: Option<&str>) {
    let mut all = Vec::new();
    files(Path::new("/repo/crates/air_r_formatter/tests/specs"), &mut all);
    all.sort();
    let (mut same, mut n) = (0, 0);
    for path in all {
        if only.is_some_and(|o| !path.to_str().unwrap().contains(o)) {
            continue;
        }
        n += 1;
        let content = std::fs::read_to_string(&path).unwrap();
        let options = options_for(&content);
        let format = |text: &str| {
            let parsed = air_r_parser::parse(text, air_r_parser::RParserOptions::default());
            if let Some(error) = parsed.error() {
                println!("ERROR {} {error}", path.display());
            }
            air_r_formatter::format_node(options.clone(), &parsed.syntax()).unwrap().print().unwrap()
        };
        let printed = format(&content);
        let output = printed.as_code();
        if format(output).as_code() != output {
            println!("NOT IDEMPOTENT {}", path.display());
        }
        let mut s = String::new();
        write!(s, "\n# Input\n\n```R\n{content}\n```\n\n\n=============================\n\n# Outputs\n\n").unwrap();
        write!(s, "## Output 1\n\n-----\n{options}-----\n\n```R\n{output}```\n\n").unwrap();
        if !printed.verbatim_ranges().is_empty() {
            write!(s, "\n\n## Unimplemented nodes/tokens\n\n").unwrap();
            for (range, text) in printed.verbatim() {
                writeln!(s, "{text:?} => {range:?}").unwrap();
            }
        }
        let long: Vec<_> = output.lines().enumerate().filter(|(_, l)| l.len() > biome_formatter::FormatOptions::line_width(&options).value() as usize).collect();
        if !long.is_empty() {
            writeln!(s, "# Lines exceeding max width of {} characters\n```", biome_formatter::FormatOptions::line_width(&options).value()).unwrap();
            for (i, line) in long {
                writeln!(s, "{:>5}: {line}", i + 1).unwrap();
            }
            writeln!(s, "```\n").unwrap();
        }
        same += report(&path, &expected(&path), &normal(&s), verbose) as usize;
    }
    println!("formatter: {same} of {n} snapshots are the same");
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let only = args.get(2).map(|s| s.as_str());
    match args[1].as_str() {
        "parser" => parser(only.is_some(), only),
        "formatter" => formatter(only.is_some(), only),
        _ => panic!(),
    }
}
