#![allow(dead_code, unused_imports)]

#[path = "/repo/crates/workspace/src/file_patterns.rs"]
pub mod file_patterns;
#[path = "/repo/crates/workspace/src/resolve.rs"]
pub mod resolve;
pub mod settings {
    #[path = "/repo/crates/workspace/src/settings/default_exclude_patterns.rs"]
    mod default_exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_include_patterns.rs"]
    mod default_include_patterns;
    #[path = "/repo/crates/workspace/src/settings/default_table.rs"]
    mod default_table;
    #[path = "/repo/crates/workspace/src/settings/exclude_patterns.rs"]
    mod exclude_patterns;
    #[path = "/repo/crates/workspace/src/settings/line_ending.rs"]
    mod line_ending;
    pub use default_exclude_patterns::DefaultExcludePatterns;
    pub use default_include_patterns::DefaultIncludePatterns;
    pub use default_table::*;
    pub use exclude_patterns::ExcludePatterns;
    pub(crate) use line_ending::LineEnding;
}

pub mod tower_lsp {
    #[path = "/repo/crates/lsp_test/src/tower_lsp/codec.rs"]
    pub mod codec;
}

/// Access for the checks to what is private to the crate
pub mod access {
    use std::path::Path;

    pub fn finalize(setting: &str, source: &str) -> Option<::settings::LineEnding> {
        // By the spelling in `air.toml`
        let setting: crate::settings::LineEnding =
            serde_json::from_value(serde_json::Value::String(setting.to_string())).ok()?;
        Some(setting.finalize(source))
    }

    pub fn default_line_ending(source: &str) -> ::settings::LineEnding {
        crate::settings::LineEnding::default().finalize(source)
    }

    pub struct Patterns(crate::settings::ExcludePatterns);
    impl Patterns {
        pub fn new(root: &str, patterns: &[String]) -> Result<Self, String> {
            crate::settings::ExcludePatterns::try_from_iter(root, patterns.iter().map(|s| s.as_str()))
                .map(Self)
                .map_err(|e| e.to_string())
        }
        pub fn matched(&self, path: &str, is_directory: bool) -> bool {
            self.0.matched(path, is_directory).is_some()
        }
        pub fn matched_path_or_any_parents(&self, path: &str, is_directory: bool) -> bool {
            self.0.matched_path_or_any_parents(path, is_directory).is_some()
        }
    }

    pub fn default_exclude_matched(path: &Path, is_directory: bool) -> bool {
        crate::settings::DefaultExcludePatterns::default().matched(path, is_directory).is_some()
    }
    pub fn default_exclude_matched_or_parents(path: &Path, is_directory: bool) -> bool {
        crate::settings::DefaultExcludePatterns::default()
            .matched_path_or_any_parents(path, is_directory)
            .is_some()
    }
    pub fn default_include_matched(path: &Path, is_directory: bool) -> bool {
        crate::settings::DefaultIncludePatterns::default().matched(path, is_directory).is_some()
    }
    pub fn default_include_matched_or_parents(path: &Path, is_directory: bool) -> bool {
        crate::settings::DefaultIncludePatterns::default()
            .matched_path_or_any_parents(path, is_directory)
            .is_some()
    }
}
