//! The `air` command, and the checks that run it

mod air_main {
    include!("/repo/crates/air/src/main.rs");
    pub fn run_main() -> std::process::ExitCode {
        main()
    }
}

mod command;
mod files;
#[allow(dead_code)]
#[path = "../../../mc/core/src/gitignore.rs"]
mod gitignore;
mod paths;
mod schema;
mod settings_of;
mod stdin;
mod toml;

fn assumptions() -> Vec<String> {
    [
        "the logging libraries, colours and shell completion are stand-ins (the originals are not available offline), so error messages are not looked at",
        "no configuration file or git repository lies above the scratch directories",
    ]
    .map(String::from)
    .to_vec()
}

fn main() -> std::process::ExitCode {
    if std::env::var_os(command::IS_AIR).is_some() {
        command::drop_privileges();
        return air_main::run_main();
    }
    mc::run(&[&files::Files, &stdin::Stdin, &settings_of::Closest, &toml::Toml, &paths::Paths, &schema::Schema])
}
