//! T02: every short history of server starts; T03: release assets on every platform
//!
//! A start is run on the real extension, in a scratch directory, with a scripted host. The
//! reference is computed from what is on disk before the start and the path remembered by the
//! running instance.

use std::collections::BTreeMap;
use std::path::Path;

use mc::{ensure, ensure_eq, Check, Ctx, Scratch, Tier, Verdict};
use serde::{Deserialize, Serialize};
use zed_extension_api::host::{self, Event, Host};
use zed_extension_api::{
    Architecture, DownloadedFileType, Extension, GithubRelease, GithubReleaseAsset, GithubReleaseOptions,
    LanguageServerId, Os, Worktree,
};

// ---------------------------------------------------------------------------------------
// What the names have to be

struct Names {
    asset: String,
    kind: DownloadedFileType,
    directory: String,
    binary: String,
}

fn names(os: Os, arch: Architecture, version: &str) -> Names {
    let arch = match arch {
        Architecture::Aarch64 => "aarch64",
        Architecture::X86 => "x86",
        Architecture::X8664 => "x86_64",
    };
    let directory = format!("air-{version}");
    match os {
        Os::Windows => Names {
            asset: format!("air-{arch}-pc-windows-msvc.zip"),
            kind: DownloadedFileType::Zip,
            binary: format!("{directory}/air.exe"),
            directory,
        },
        Os::Mac => Names {
            asset: format!("air-{arch}-apple-darwin.tar.gz"),
            kind: DownloadedFileType::GzipTar,
            binary: format!("{directory}/air-{arch}-apple-darwin/air"),
            directory,
        },
        Os::Linux => Names {
            asset: format!("air-{arch}-unknown-linux-gnu.tar.gz"),
            kind: DownloadedFileType::GzipTar,
            binary: format!("{directory}/air-{arch}-unknown-linux-gnu/air"),
            directory,
        },
    }
}

const OSES: &[Os] = &[Os::Linux, Os::Windows, Os::Mac];
const ARCHES: &[Architecture] = &[Architecture::X8664, Architecture::Aarch64, Architecture::X86];

/// What releases really contain, and names that are easily mistaken for another
fn all_assets() -> Vec<String> {
    let mut out = vec![
        "air-installer.sh".to_string(),
        "air-installer.ps1".to_string(),
        "source.tar.gz".to_string(),
        "air-x86_64-unknown-linux-musl.tar.gz".to_string(),
        "air-aarch64-unknown-linux-musl.tar.gz".to_string(),
        "air".to_string(),
        "air.exe".to_string(),
    ];
    for os in OSES {
        for arch in ARCHES {
            let asset = names(*os, *arch, "").asset;
            out.push(format!("{asset}.sha256"));
            out.push(format!("x{asset}"));
            out.push(asset.to_uppercase());
            out.push(asset);
        }
    }
    out
}

// ---------------------------------------------------------------------------------------
// The scripted host

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Settings {
    /// Settings cannot be read
    Broken,
    Empty,
    /// `binary` without anything in it
    Binary,
    Arguments,
    NoArguments,
    Path,
    PathAndArguments,
}
use Settings::*;

impl Settings {
    fn json(self) -> Result<String, String> {
        Ok(match self {
            Broken => return Err("no settings".into()),
            Empty => "{}",
            Binary => r#"{"binary":{}}"#,
            Arguments => r#"{"binary":{"arguments":["--log","language-server"]}, "settings": {"a": [1]}}"#,
            NoArguments => r#"{"binary":{"arguments":[]}, "initialization_options": {"b": "c"}}"#,
            Path => r#"{"binary":{"path":"/user/air"}, "initialization_options": {}, "settings": {"d": null}}"#,
            PathAndArguments => r#"{"binary":{"path":"bin/air","arguments":["x"]}}"#,
        }
        .to_string())
    }
    fn path(self) -> Option<&'static str> {
        match self {
            Path => Some("/user/air"),
            PathAndArguments => Some("bin/air"),
            _ => None,
        }
    }
    fn args(self) -> Vec<String> {
        let args: &[&str] = match self {
            Arguments => &["--log", "language-server"],
            NoArguments => &[],
            PathAndArguments => &["x"],
            _ => &["language-server"],
        };
        args.iter().map(|s| s.to_string()).collect()
    }
    fn section(self, name: &str) -> serde_json::Value {
        match self.json() {
            Err(_) => serde_json::Value::Null,
            Ok(json) => serde_json::from_str::<serde_json::Value>(&json).unwrap()[name].clone(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Release {
    Unreachable,
    /// No asset for the platform
    Missing,
    Old,
    New,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Download {
    Fails,
    /// Fails with the directory made, and something in it
    FailsHalfway,
    Works,
    /// Works, but the archive does not hold the binary
    WorksWithoutBinary,
}

/// What happens before a start
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Before {
    Nothing,
    /// The host is restarted: a new instance of the extension
    Restart,
    /// The remembered binary is deleted
    Deleted,
    /// There is a directory in its place
    Replaced,
    /// Other directories and files appear, with the release names and others
    Clutter,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub struct Start {
    before: Before,
    settings: Settings,
    on_path: bool,
    release: Release,
    download: Download,
}

const OLD: &str = "0.7.1";
const NEW: &str = "0.10.0";

struct Script {
    os: Os,
    arch: Architecture,
    settings: Settings,
    on_path: bool,
    release: Result<GithubRelease, String>,
    download: Download,
}

impl Script {
    fn of(os: Os, arch: Architecture, start: &Start) -> Script {
        let version = match start.release {
            Release::Old => OLD,
            _ => NEW,
        };
        let release = match start.release {
            Release::Unreachable => Err("rate limit".to_string()),
            _ => Ok(release(version, |name| {
                start.release != Release::Missing || name != names(os, arch, version).asset
            })),
        };
        Script { os, arch, settings: start.settings, on_path: start.on_path, release, download: start.download }
    }
}

fn url(version: &str, asset: &str) -> String {
    format!("https://example.org/{version}/{asset}")
}

fn release(version: &str, keep: impl Fn(&str) -> bool) -> GithubRelease {
    GithubRelease {
        version: version.to_string(),
        assets: all_assets()
            .into_iter()
            .filter(|name| keep(name))
            .map(|name| GithubReleaseAsset { download_url: url(version, &name), name })
            .collect(),
    }
}

impl Host for Script {
    fn platform(&self) -> (Os, Architecture) {
        (self.os, self.arch)
    }
    fn settings(&self, category: &str, key: Option<&str>) -> Result<String, String> {
        match (category, key) {
            ("lsp", Some("air")) => self.settings.json(),
            _ => Ok(r#"{"binary":{"path":"/other/server"}}"#.to_string()),
        }
    }
    fn which(&self, name: &str) -> Option<String> {
        match name {
            "air" => self.on_path.then(|| "/usr/bin/air".to_string()),
            _ => Some(format!("/usr/bin/{name}")),
        }
    }
    fn latest_release(&self, repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease, String> {
        if repo != "posit-dev/air" {
            return Err(format!("no repository {repo}"));
        }
        if options.pre_release {
            return Ok(release("99.0.0-pre", |_| true));
        }
        if !options.require_assets {
            return Ok(release("98.0.0", |_| false));
        }
        self.release.clone()
    }
    fn tagged_release(&self, _repo: &str, tag: &str) -> Result<GithubRelease, String> {
        match &self.release {
            Ok(release) if release.version == tag => Ok(release.clone()),
            _ => Err(format!("no release {tag}")),
        }
    }
    fn download(&self, url_: &str, path: &str, _kind: DownloadedFileType) -> Result<(), String> {
        // The host is not confined to what the extension may do, but to its directory
        let version = path.strip_prefix("air-").unwrap_or("");
        let names = names(self.os, self.arch, version);
        let put = |file: &str| {
            if Path::new(file).is_absolute() || file.contains("..") {
                return;
            }
            if let Some(parent) = Path::new(file).parent() {
                let _ = std::fs::create_dir_all(parent);
            }
            let _ = std::fs::write(file, url_);
        };
        match self.download {
            Download::Fails => Err("connection reset".into()),
            Download::FailsHalfway => {
                put(&format!("{path}/README.md"));
                Err("unexpected end of archive".into())
            }
            Download::Works => {
                put(&format!("{path}/README.md"));
                let inner = names.binary.strip_prefix(&names.directory).unwrap();
                let _ = std::fs::remove_dir(format!("{path}{inner}"));
                put(&format!("{path}{inner}"));
                Ok(())
            }
            Download::WorksWithoutBinary => {
                put(&format!("{path}/README.md"));
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------------------------------
// T02

/// Relative path to content (`None`: directory) below the working directory
type Disk = BTreeMap<String, Option<String>>;

fn disk(root: &Path) -> Disk {
    fn walk(dir: &Path, prefix: &str, out: &mut Disk) {
        for entry in std::fs::read_dir(dir).unwrap() {
            let entry = entry.unwrap();
            let name = format!("{prefix}{}", entry.file_name().to_str().unwrap());
            if entry.file_type().unwrap().is_dir() {
                walk(&entry.path(), &format!("{name}/"), out);
                out.insert(name, None);
            } else {
                out.insert(name, Some(std::fs::read_to_string(entry.path()).unwrap()));
            }
        }
    }
    let mut out = Disk::new();
    walk(root, "", &mut out);
    out
}

fn is_file(disk: &Disk, path: &str) -> bool {
    matches!(disk.get(path), Some(Some(_)))
}

fn top(path: &str) -> &str {
    path.split('/').next().unwrap()
}

/// Without plain files at the top: whether they are cleaned up is left open
fn comparable(disk: &Disk) -> Disk {
    disk.iter().filter(|(path, content)| path.contains('/') || content.is_none()).map(|(p, c)| (p.clone(), c.clone())).collect()
}

#[derive(Serialize, Deserialize, Clone)]
pub struct History {
    windows: bool,
    starts: Vec<Start>,
}

pub struct Starts;

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}

impl Starts {
    fn before(&self, before: Before, extension: &mut Box<dyn Extension>, remembered: &mut Option<String>) {
        match before {
            Before::Nothing => {}
            Before::Restart => {
                *extension = crate::extension::__new_extension();
                *remembered = None;
            }
            Before::Deleted => {
                if let Some(path) = remembered {
                    let _ = std::fs::remove_file(path);
                }
            }
            Before::Replaced => {
                if let Some(path) = remembered {
                    let _ = std::fs::remove_file(&path);
                    let _ = std::fs::create_dir_all(&path);
                }
            }
            Before::Clutter => {
                for dir in ["air-0.1.0/x", "air-0.7.1x", "air", "air-", "x/air-0.10.0", ".air-0.10.0", "AIR-0.10.0", "air-0.7.1"] {
                    std::fs::create_dir_all(dir).unwrap();
                }
                for file in ["air-0.1.0/air.exe", "air-0.7.1x/air.exe", "a.txt", "air.exe"] {
                    std::fs::write(file, "old").unwrap();
                }
            }
        }
    }

    fn step(
        &self,
        root: &Path,
        os: Os,
        start: &Start,
        extension: &mut Box<dyn Extension>,
        remembered: &mut Option<String>,
        ctx: &mut Ctx,
    ) -> Verdict {
        let arch = Architecture::X8664;
        self.before(start.before, extension, remembered);
        let before = disk(root);

        host::take_log();
        host::set(Box::new(Script::of(os, arch, start)));
        let id = LanguageServerId::of("air");
        let worktree = Worktree(1);
        let got = mc::guard(|| extension.language_server_command(&id, &worktree))?;
        let log = host::take_log();
        let after = disk(root);
        let downloads: Vec<&Event> = log.iter().filter(|e| matches!(e, Event::Download { .. })).collect();

        // Reference
        let mut expected_disk = before.clone();
        let mut expected_download = None;
        let label;
        let expected: Option<String> = if let Some(path) = start.settings.path() {
            label = "user path";
            Some(path.to_string())
        } else if start.on_path {
            label = "search path";
            Some("/usr/bin/air".to_string())
        } else if remembered.as_deref().is_some_and(|path| is_file(&before, path)) {
            label = "remembered";
            remembered.clone()
        } else {
            match start.release {
                Release::Unreachable | Release::Missing => {
                    label = "no release";
                    None
                }
                Release::Old | Release::New => {
                    let version = if start.release == Release::Old { OLD } else { NEW };
                    let names = names(os, arch, version);
                    let ok = if is_file(&before, &names.binary) {
                        label = "already on disk";
                        true
                    } else {
                        let url = url(version, &names.asset);
                        let readme = format!("{}/README.md", names.directory);
                        expected_download =
                            Some(Event::Download { url: url.clone(), path: names.directory.clone(), kind: names.kind });
                        if start.download != Download::Fails {
                            expected_disk.insert(names.directory.clone(), None);
                            expected_disk.insert(readme, Some(url.clone()));
                        }
                        if start.download == Download::Works {
                            let inner = names.binary.rsplit_once('/').unwrap().0.to_string();
                            expected_disk.insert(inner, None);
                            expected_disk.insert(names.binary.clone(), Some(url));
                        }
                        match start.download {
                            Download::Works | Download::WorksWithoutBinary => {
                                label = "downloaded";
                                expected_disk.retain(|path, _| top(path) == names.directory);
                                true
                            }
                            Download::Fails | Download::FailsHalfway => {
                                label = "download failed";
                                false
                            }
                        }
                    };
                    if ok {
                        *remembered = Some(names.binary.clone());
                    }
                    ok.then_some(names.binary)
                }
            }
        };
        match (&got, &expected) {
            (Ok(command), Some(path)) => {
                ensure_eq!(&command.command, path, "command started at {start:?}");
                ensure_eq!(command.args, start.settings.args(), "arguments at {start:?}");
                ensure!(command.env.is_empty(), "environment {:?} set at {start:?}", command.env);
            }
            (Err(_), None) => {}
            (Ok(command), None) => return Err(format!("{start:?} starts {:?}, expected an error", command.command).into()),
            (Err(error), Some(path)) => return Err(format!("{start:?} fails with {error:?}, expected {path:?}").into()),
        }
        ensure_eq!(
            downloads,
            expected_download.iter().collect::<Vec<_>>(),
            "downloads at {start:?} with {:?} on disk",
            before.keys().collect::<Vec<_>>()
        );
        ensure_eq!(comparable(&after), comparable(&expected_disk), "what is on disk after {start:?} ({label})");

        for (section, value) in [
            ("initialization_options", extension.language_server_initialization_options(&id, &worktree)),
            ("settings", extension.language_server_workspace_configuration(&id, &worktree)),
        ] {
            ensure_eq!(value, Ok(Some(start.settings.section(section))), "{section} at {start:?}");
        }
        ensure!(disk(root) == after, "asking for settings changed the disk at {start:?}");

        ctx.step(3);
        ctx.outcome(label);
        ctx.state(&(os == Os::Windows, remembered.clone(), after));
        Ok(())
    }
}

fn start_kinds(rich: bool) -> Vec<Start> {
    use Before::*;
    let mut out = Vec::new();
    for before in [Nothing, Restart, Deleted, Replaced, Clutter] {
        let start = |settings, on_path, release, download| Start { before, settings, on_path, release, download };
        let mut put = |settings, on_path, release, download| {
            let new = start(settings, on_path, release, download);
            if !out.contains(&new) {
                out.push(new)
            }
        };
        let unused: &[Settings] = if rich { &[Path, PathAndArguments] } else { &[PathAndArguments] };
        for settings in unused {
            for on_path in [false, true] {
                if rich || on_path {
                    put(*settings, on_path, Release::New, Download::Works);
                }
            }
        }
        let settings: &[Settings] =
            if rich { &[Empty, Broken, Binary, Arguments, NoArguments] } else { &[Empty] };
        for settings in settings {
            put(*settings, true, Release::New, Download::Works);
            for release in [Release::Old, Release::New] {
                for download in
                    [Download::Works, Download::Fails, Download::FailsHalfway, Download::WorksWithoutBinary]
                {
                    put(*settings, false, release, download);
                }
            }
            for release in [Release::Unreachable, Release::Missing] {
                put(*settings, false, release, Download::Works);
            }
        }
    }
    out
}

impl Check for Starts {
    type Case = History;
    fn id(&self) -> &'static str {
        "T02"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all histories of 2 starts, one over {} kinds and the other over {}, and of 3 starts over {} kinds{}, and of {} ordinary starts over 7 kinds (what happened before: nothing, restart, binary deleted or replaced, clutter; settings; search path; release lookup and download with their failures), on Linux and Windows",
            start_kinds(true).len(),
            start_kinds(tier == Tier::Thorough).len(),
            start_kinds(false).len(),
            tier.pick(" (Linux only)", ""),
            tier.pick(5, 6)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["A failing download of the host leaves no file in place of the binary.".into(),
             "Whether plain files next to the release directories are cleaned up is left open.".into()]
    }
    fn explore(&self, tier: Tier, emit_all: &mut dyn FnMut(History)) {
        // Before the first start nothing is remembered, so these make no difference
        let mut emit = |history: History| {
            if matches!(history.starts[0].before, Before::Nothing | Before::Clutter) {
                emit_all(history)
            }
        };
        for windows in [false, true] {
            let kinds = start_kinds(true);
            mc::words_of(kinds.len(), 1, &mut |w| emit(History { windows, starts: w.iter().map(|i| kinds[*i]).collect() }));
            let few = start_kinds(false);
            for (a, b) in [(&few, &kinds), (&kinds, &few)] {
                for one in a.iter() {
                    for two in b.iter() {
                        emit(History { windows, starts: vec![*one, *two] });
                    }
                }
            }
            if tier == Tier::Thorough {
                mc::words_of(kinds.len(), 2, &mut |w| emit(History { windows, starts: w.iter().map(|i| kinds[*i]).collect() }));
            }
            // Longer histories of ordinary starts
            if !windows || tier == Tier::Thorough {
                let start = |before, release, download| Start { before, settings: Empty, on_path: false, release, download };
                let ordinary = [
                    start(Before::Nothing, Release::Old, Download::Works),
                    start(Before::Nothing, Release::New, Download::Works),
                    start(Before::Restart, Release::New, Download::Works),
                    start(Before::Restart, Release::Old, Download::FailsHalfway),
                    start(Before::Deleted, Release::New, Download::Fails),
                    start(Before::Deleted, Release::Old, Download::Works),
                    start(Before::Clutter, Release::Unreachable, Download::Works),
                ];
                mc::words_of(ordinary.len(), tier.pick(5, 6), &mut |w| {
                    emit(History { windows, starts: w.iter().map(|i| ordinary[*i]).collect() })
                });
            }
            if tier == Tier::Thorough || !windows {
                mc::words_of(few.len(), 3, &mut |w| emit(History { windows, starts: w.iter().map(|i| few[*i]).collect() }));
            }
        }
    }
    fn judge(&self, case: &History, ctx: &mut Ctx) -> Verdict {
        SCRATCH.with(|scratch| {
            scratch.clear();
            let root = scratch.path().to_path_buf();
            scratch.enter(|| {
                let mut extension = crate::extension::__new_extension();
                let mut remembered = None;
                let os = if case.windows { Os::Windows } else { Os::Linux };
                for start in &case.starts {
                    self.step(&root, os, start, &mut extension, &mut remembered, ctx)?;
                }
                Ok(())
            })
        })
    }
}

// ---------------------------------------------------------------------------------------
// T03

const VERSIONS: &[&str] = &["0.1.0", "0.7.1", "10.20.30", "1.0.0-rc.1", "v0.2.0", "2", "0.1.0+1", "2026.1 beta", ""];

#[derive(Serialize, Deserialize, Clone)]
pub struct Platform {
    os: usize,
    arch: usize,
    version: String,
    /// The assets of the release, as indices
    assets: Vec<usize>,
}

pub struct Assets;

impl Check for Assets {
    type Case = Platform;
    fn id(&self) -> &'static str {
        "T03"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "3 systems x 3 architectures x {} versions x releases with every {} of {} assets (every platform, checksums, installers, near misses) in either order, the full release in both orders, and the full one without each asset; every character (about 700) in versions, versions of up to 200 characters",
            VERSIONS.len(), tier.pick("pair", "triple"), all_assets().len()
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Platform)) {
        let n = all_assets().len();
        // Every character in versions, and versions of every length
        let mut versions: Vec<String> = Vec::new();
        for c in mc::characters().filter(|c| !matches!(c, '/' | '\0' | '.')) {
            versions.extend([format!("{c}"), format!("1{c}2"), format!("{c}1.0.0"), format!("1.0.0{c}")]);
        }
        versions.extend((1..=200).flat_map(|n| ["9".repeat(n), format!("1.{}", "0.".repeat(n / 2))]));
        for version in versions {
            for os in 0..3 {
                emit(Platform { os, arch: 0, version: version.clone(), assets: (0..n).collect() });
            }
        }
        mc::tuples(&[VERSIONS.len(), 3, 3], &mut |t| {
            let mut put = |assets| emit(Platform { os: t[1], arch: t[2], version: VERSIONS[t[0]].to_string(), assets });
            put((0..n).collect());
            put((0..n).rev().collect());
            put(vec![]);
            for without in 0..n {
                put((0..n).filter(|i| *i != without).collect());
            }
            let len = tier.pick(2, 3);
            let own = all_assets().iter().position(|a| *a == names(OSES[t[1]], ARCHES[t[2]], "").asset).unwrap();
            for i in 1..=len {
                mc::words_of(n, i, &mut |w| {
                    // releases name each asset once
                    let distinct = (1..w.len()).all(|i| !w[..i].contains(&w[i]));
                    if distinct && (i < 3 || w.contains(&own)) {
                        put(w.to_vec())
                    }
                });
            }
        });
    }
    fn judge(&self, case: &Platform, ctx: &mut Ctx) -> Verdict {
        let (os, arch) = (OSES[case.os], ARCHES[case.arch]);
        let all = all_assets();
        let chosen: Vec<String> = case.assets.iter().map(|i| all[*i].clone()).collect();
        let names = names(os, arch, &case.version);
        SCRATCH.with(|scratch| {
            scratch.clear();
            scratch.enter(|| {
                let mut extension = crate::extension::__new_extension();
                host::take_log();
                host::set(Box::new(Script {
                    os,
                    arch,
                    settings: Empty,
                    on_path: false,
                    release: Ok(GithubRelease {
                        version: case.version.clone(),
                        assets: chosen
                            .iter()
                            .map(|name| GithubReleaseAsset { download_url: url(&case.version, name), name: name.clone() })
                            .collect(),
                    }),
                    download: Download::Works,
                }));
                let got = mc::guard(|| extension.language_server_command(&LanguageServerId::of("air"), &Worktree(1)))?;
                let downloads: Vec<Event> =
                    host::take_log().into_iter().filter(|e| matches!(e, Event::Download { .. })).collect();
                ctx.step(1);
                ctx.state(&(case.os, case.arch, &case.version, got.is_ok()));
                if chosen.contains(&names.asset) {
                    let wanted = Event::Download {
                        url: url(&case.version, &names.asset),
                        path: names.directory.clone(),
                        kind: names.kind,
                    };
                    ensure_eq!(downloads, vec![wanted], "download on {os:?} {arch:?} from {chosen:?}");
                    let command = got.map_err(|e| format!("no command on {os:?} {arch:?} from {chosen:?}: {e}"))?;
                    ensure_eq!(command.command, names.binary, "binary on {os:?} {arch:?}");
                    ensure!(
                        Path::new(&command.command).is_file(),
                        "{:?} is not there after the download on {os:?} {arch:?}",
                        command.command
                    );
                    ctx.outcome("downloaded");
                } else {
                    ensure!(downloads.is_empty(), "{os:?} {arch:?} downloads {downloads:?} from {chosen:?}");
                    ensure!(got.is_err(), "{os:?} {arch:?} starts {got:?} from {chosen:?}");
                    ctx.outcome("no asset");
                }
                Ok(())
            })
        })
    }
}
