//! Same names and types as `zed_extension_api` 0.2.0, as far as a language server extension
//! can use them; the imports from the host go to the [host::Host] of the calling thread.

pub use serde_json;

pub mod host {
    use std::cell::RefCell;

    use crate::*;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Event {
        Which(String),
        Settings { category: String, key: Option<String> },
        Release { repo: String, require_assets: bool, pre_release: bool },
        Status(LanguageServerInstallationStatus),
        Download { url: String, path: String, kind: DownloadedFileType },
        Executable(String),
    }

    pub trait Host {
        fn platform(&self) -> (Os, Architecture);
        fn settings(&self, category: &str, key: Option<&str>) -> Result<String>;
        fn which(&self, name: &str) -> Option<String>;
        fn shell_env(&self) -> EnvVars {
            Vec::new()
        }
        fn latest_release(&self, repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease>;
        fn tagged_release(&self, repo: &str, tag: &str) -> Result<GithubRelease>;
        fn download(&self, url: &str, path: &str, kind: DownloadedFileType) -> Result<()>;
    }

    thread_local! {
        static HOST: RefCell<Option<Box<dyn Host>>> = const { RefCell::new(None) };
        static LOG: RefCell<Vec<Event>> = const { RefCell::new(Vec::new()) };
    }

    pub fn set(host: Box<dyn Host>) {
        HOST.with(|h| *h.borrow_mut() = Some(host));
    }
    pub fn take_log() -> Vec<Event> {
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
    }
    pub(crate) fn log(event: Event) {
        LOG.with(|l| l.borrow_mut().push(event));
    }
    pub(crate) fn with<T>(f: impl FnOnce(&dyn Host) -> T) -> T {
        HOST.with(|h| f(h.borrow().as_deref().expect("a host for this thread")))
    }
}
use host::{log, with, Event};

pub type Result<T, E = String> = core::result::Result<T, E>;
pub type EnvVars = Vec<(String, String)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}

#[derive(Clone, Debug, PartialEq)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}

#[derive(Clone, Debug)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}

#[derive(Clone, Debug)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}

#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}

#[derive(Clone, Debug)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(String);
impl LanguageServerId {
    pub fn of(name: &str) -> Self {
        Self(name.to_string())
    }
}
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl core::fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Debug)]
pub struct Worktree(pub u64);
impl Worktree {
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn root_path(&self) -> String {
        "/worktree".to_string()
    }
    pub fn read_text_file(&self, path: &str) -> Result<String> {
        Err(format!("no file {path}"))
    }
    pub fn which(&self, binary_name: &str) -> Option<String> {
        log(Event::Which(binary_name.to_string()));
        with(|h| h.which(binary_name))
    }
    pub fn shell_env(&self) -> EnvVars {
        with(|h| h.shell_env())
    }
}

pub fn current_platform() -> (Os, Architecture) {
    with(|h| h.platform())
}
pub fn latest_github_release(repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease> {
    log(Event::Release {
        repo: repo.to_string(),
        require_assets: options.require_assets,
        pre_release: options.pre_release,
    });
    with(|h| h.latest_release(repo, options))
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    with(|h| h.tagged_release(repo, tag))
}
pub fn download_file(url: &str, file_path: &str, file_type: DownloadedFileType) -> Result<()> {
    log(Event::Download { url: url.to_string(), path: file_path.to_string(), kind: file_type });
    with(|h| h.download(url, file_path, file_type))
}
pub fn make_file_executable(filepath: &str) -> Result<()> {
    log(Event::Executable(filepath.to_string()));
    Ok(())
}
pub fn set_language_server_installation_status(_id: &LanguageServerId, status: &LanguageServerInstallationStatus) {
    log(Event::Status(status.clone()));
}

pub mod settings {
    use std::collections::HashMap;

    use serde::{Deserialize, Serialize};

    use crate::{host::Event, Result, Worktree};

    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }

    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }

    impl LspSettings {
        pub fn for_worktree(language_server_name: &str, _worktree: &Worktree) -> Result<Self> {
            crate::host::log(Event::Settings {
                category: "lsp".to_string(),
                key: Some(language_server_name.to_string()),
            });
            let json = crate::host::with(|h| h.settings("lsp", Some(language_server_name)))?;
            serde_json::from_str(&json).map_err(|e| e.to_string())
        }
    }
}

pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _id: &LanguageServerId, _worktree: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(
        &mut self,
        _id: &LanguageServerId,
        _worktree: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(
        &mut self,
        _id: &LanguageServerId,
        _worktree: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}

#[macro_export]
macro_rules! register_extension {
    ($extension_type:ty) => {
        /// A new instance, as the host makes one
        pub fn __new_extension() -> Box<dyn zed_extension_api::Extension> {
            Box::new(<$extension_type as zed_extension_api::Extension>::new())
        }
    };
}
