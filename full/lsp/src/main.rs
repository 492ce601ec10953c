mod client;
mod format;
mod history;
#[path = "../../fmt/src/oracle.rs"]
mod oracle;
#[allow(dead_code)]
#[path = "../../fmt/src/r.rs"]
mod r;
mod range;
mod schedule;
mod server;
mod settings;
mod text;

fn assumptions() -> Vec<String> {
    [
        "tower-lsp, the protocol's types, biome's line index and the text difference are stand-ins written for this (the originals are not available offline)",
        "texts and histories beyond the bounds are built from the same parts",
    ]
    .map(String::from)
    .to_vec()
}

fn main() {
    mc::run(&[&text::Edits, &text::Positions, &text::Documents, &text::Apply, &format::Editor, &range::Selection, &history::Follow, &history::Sync, &schedule::Orders, &settings::Client])
}
