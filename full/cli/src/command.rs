//! Running the command

use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant, SystemTime};

pub const IS_AIR: &str = "MC_IS_AIR";
const NOBODY: u32 = 65534;

/// File permissions apply to unprivileged users only
pub fn drop_privileges() {
    unsafe {
        if libc::geteuid() == 0 {
            assert_eq!(libc::setgroups(0, std::ptr::null()), 0);
            assert_eq!(libc::setgid(NOBODY), 0);
            assert_eq!(libc::setuid(NOBODY), 0);
        }
    }
}

pub struct Out {
    pub code: i32,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    /// The paths reported in check mode
    pub fn reported(&self) -> Vec<String> {
        self.stderr.lines().filter_map(|l| l.strip_prefix("Would reformat: ")).map(String::from).collect()
    }
}

/// Runs `air` in a directory. `home` is where the user's configuration of git would be.
pub fn air(directory: &Path, home: &Path, args: &[&str], stdin: Option<&[u8]>) -> Result<Out, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .env_clear()
        .env(IS_AIR, "1")
        .env("HOME", home)
        .args(args)
        .current_dir(directory)
        .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start: {e}"))?;
    if let Some(text) = stdin {
        // It may not want to read
        let _ = child.stdin.take().unwrap().write_all(text);
    }
    // outputs are short, pipes hold them
    let start = Instant::now();
    let mut wait = Duration::from_micros(300);
    loop {
        match child.try_wait().map_err(|e| e.to_string())? {
            Some(_) => break,
            None if start.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("does not end: {args:?}"));
            }
            None => std::thread::sleep(wait),
        }
        wait = (wait * 3 / 2).min(Duration::from_millis(20));
    }
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let code = out.status.code().ok_or_else(|| format!("ended by a signal: {args:?}"))?;
    Ok(Out { code, stdout: out.stdout, stderr: String::from_utf8_lossy(&out.stderr).into_owned() })
}

/// A file of the unprivileged user, with a time stamp in the past
pub fn write(path: &Path, content: &[u8], mode: u32) {
    use std::os::unix::fs::PermissionsExt;
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(path, content).unwrap();
    let file = std::fs::File::options().write(true).open(path).unwrap();
    file.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)).unwrap();
    std::os::unix::fs::chown(path, Some(NOBODY), Some(NOBODY)).unwrap();
    std::fs::set_permissions(path, std::fs::Permissions::from_mode(mode)).unwrap();
}

/// Has nobody written the file since `write`?
pub fn untouched(path: &Path) -> bool {
    let at = std::fs::metadata(path).and_then(|m| m.modified());
    matches!(at, Ok(t) if t == SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000))
}

/// What formatting makes of a text: `None` if it has a syntax error
pub fn formatted(text: &str, settings: &workspace::settings::FormatSettings) -> Option<String> {
    use workspace::format::{FormattedSource, format_source};
    match format_source(text, settings.to_format_options(text)) {
        Ok(FormattedSource::Changed(new)) => Some(new),
        Ok(FormattedSource::Unchanged) => Some(text.to_string()),
        Err(_) => None,
    }
}
