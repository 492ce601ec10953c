//! Stand-in for `clap_complete` that writes no completions.

#[derive(Clone, Copy, Debug, PartialEq, Eq, clap::ValueEnum)]
pub enum Shell {
    Bash,
    Elvish,
    Fish,
    #[value(name = "powershell")]
    PowerShell,
    Zsh,
}

pub fn generate<S: Into<String>>(_: Shell, _: &mut clap::Command, _: S, _: &mut dyn std::io::Write) {}
