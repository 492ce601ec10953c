mod families;
mod fmt;
mod r#gen;
mod oracle;
mod layout;
mod parser;
mod place;
mod r;
mod sites;
mod style;
mod survey;
mod syntax;
mod table;
mod verbatim;

fn assumptions() -> Vec<String> {
    [
        "biome's formatting engine, tree and parser helpers, and tree-sitter with its R grammar, are stand-ins written for this (the originals are not available offline): they reproduce all 42 snapshots of the formatter and all 39 of the parser",
        "programs beyond the bounds are built from the same constructs",
    ]
    .map(String::from)
    .to_vec()
}

macro_rules! checks {
    ($($check:expr),* $(,)?) => {
        fn survey_one(id: &str, tier: mc::Tier, limit: usize, show: usize) {
            $(if mc::Check::id(&$check) == id { survey::survey(&$check, tier, limit, show) })*
        }
        fn count_one(id: &str, tier: mc::Tier) {
            $(if mc::Check::id(&$check) == id {
                let mut n = 0u64;
                mc::Check::explore(&$check, tier, &mut |_| n += 1);
                println!("{n} cases");
            })*
        }
        fn run() -> ! {
            mc::run(&[$(&$check),*])
        }
    };
}

checks![fmt::Fmt("F01"), fmt::Fmt("F02"), fmt::Fmt("F03"), fmt::Fmt("F04"), fmt::Fmt("F05"), verbatim::Skip, layout::Layout, table::Table, parser::Lossless, parser::Total, syntax::Syntax, style::Style("F09"), style::Style("F10"), style::Style("F11"), style::Style("F12"), place::Place];

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let n = |i: usize, default| argv.get(i).map_or(default, |n| n.parse().unwrap());
    match argv.get(1).map(|a| a.as_str()) {
        // survey ID [limit] [classes to show] [thorough]
        Some("survey") => survey_one(&argv[2], if argv.len() > 5 { mc::Tier::Thorough } else { mc::Tier::Quick }, n(3, usize::MAX), n(4, 30)),
        // count ID [thorough]
        Some("count") => count_one(&argv[2], if argv.len() > 3 { mc::Tier::Thorough } else { mc::Tier::Quick }),
        // show TOML: formats standard input again and again
        Some("show") => {
            let toml = argv.get(2).map_or("", |s| s);
            let mut src = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut src).unwrap();
            for _ in 0..3 {
                if argv.len() > 3 {
                    println!("{:#?}", r::parse(&src).map(|p| p.syntax()));
                }
                match r::format(&src, toml) {
                    Some(Ok(out)) => src = out,
                    other => return println!("{other:?}"),
                }
                println!("{src}---");
            }
        }
        _ => run(),
    }
}
