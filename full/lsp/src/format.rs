//! S04 formatting in the editor and on the command line

use std::path::Path;

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use url::Url;
use workspace::format::{FormatSourceError, FormattedSource, format_source};
use workspace::settings::FormatSettings;

use crate::client::{Enc, apply, crlf, normal};
use crate::server::{Indent, Options, Server};

pub struct Editor;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Place {
    /// A file in the workspace folder
    Inside,
    /// A file that is not
    Outside,
    /// In a directory that is excluded without configuration
    Renv,
    Untitled,
    Notebook,
}

pub const PLACES: [Place; 5] = [Place::Inside, Place::Outside, Place::Renv, Place::Untitled, Place::Notebook];

#[derive(Clone, Serialize, Deserialize)]
pub struct Doc {
    text: String,
    crlf: bool,
    enc: Enc,
    place: Place,
    /// What `air.toml` says, if there is one
    toml: Option<String>,
    indent: Indent,
}

pub fn file_url(path: &Path) -> Url {
    Url::from_file_path(path).unwrap()
}

/// The settings of a configuration file, and defaults without
pub fn settings(toml: Option<&str>, root: &Path) -> Result<FormatSettings, String> {
    let Some(toml) = toml else { return Ok(FormatSettings::default()) };
    let options = workspace::toml::parse_air_toml(root.join("air.toml")).map_err(|e| format!("{toml}: {e}"))?;
    Ok(options.into_settings(root).map_err(|e| format!("{toml}: {e}"))?.format)
}

/// What `air format` would leave in the file, `None` if it would not touch it
pub fn command_line(text: &str, settings: &FormatSettings, client: Option<Indent>) -> Result<Option<String>, String> {
    let mut options = settings.to_format_options(text);
    if let Some(indent) = client {
        options.set_indent_style(if indent.spaces { settings::IndentStyle::Space } else { settings::IndentStyle::Tab });
        options.set_indent_width(settings::IndentWidth::try_from(indent.width).map_err(|e| e.to_string())?);
    }
    match format_source(text, options) {
        Ok(FormattedSource::Changed(text)) => Ok(Some(text)),
        Ok(FormattedSource::Unchanged) => Ok(None),
        Err(FormatSourceError::Parse(_)) => Ok(None),
        Err(error) => Err(error.to_string()),
    }
}

const PARTS: &[&str] = &["x<-1", "f(a,b)", "\n", " ", "# é𐐀\n", "\"𐐀\"", "(", ")", "{\n1}", "1+\n2", "if(a)b", ";"];
const TOMLS: &[&str] = &[
    "[format]\nline-width = 3\n",
    "[format]\nindent-width = 3\n",
    "[format]\nindent-style = \"tab\"\n",
    "[format]\nline-ending = \"lf\"\n",
    "[format]\nline-ending = \"crlf\"\n",
    "[format]\nline-ending = \"native\"\n",
    "[format]\npersistent-line-breaks = false\n",
    "[format]\nexclude = [\"d.R\"]\n",
    "[format]\nexclude = [\"other.R\"]\ndefault-exclude = false\n",
    "[format]\nskip = [\"f\"]\n",
    "",
];

impl Check for Editor {
    type Case = Doc;
    fn id(&self) -> &'static str {
        "S04"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "documents of at most {} parts out of {} (statements, blanks, comments, wide characters, syntax errors), with either line ending, both encodings; a file in the workspace folder, a file outside, an excluded file, an unsaved document, a notebook cell; without configuration and with each of {} (for shorter documents); three indentation settings of the client",
            tier.pick(3, 4),
            PARTS.len(),
            TOMLS.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("the document keeps its own line ending, whichever the configuration asks for".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Doc)) {
        let two = Indent { width: 2, spaces: true };
        let mut layer = vec![String::new()];
        for n in 0..=tier.pick(3, 4) {
            for text in &layer {
                for (i, crlf) in [false, true].into_iter().enumerate() {
                    if crlf && !text.contains('\n') {
                        continue;
                    }
                    // the encoding matters where there are wide characters
                    for enc in [Enc::Utf16, Enc::Utf8] {
                        if enc == Enc::Utf8 && (text.is_ascii() || i == 1 && n > 2) {
                            continue;
                        }
                        let doc = |place, toml: Option<&str>, indent| Doc {
                            text: text.clone(),
                            crlf,
                            enc,
                            place,
                            toml: toml.map(String::from),
                            indent,
                        };
                        if n <= 2 {
                            for place in PLACES {
                                for indent in [two, Indent { width: 4, spaces: true }, Indent { width: 4, spaces: false }] {
                                    emit(doc(place, None, indent));
                                }
                                for toml in TOMLS {
                                    emit(doc(place, Some(toml), Indent { width: 5, spaces: true }));
                                }
                            }
                        } else {
                            emit(doc(Place::Inside, None, two));
                            if n == 3 {
                                emit(doc(Place::Inside, Some(TOMLS[0]), two));
                                emit(doc(Place::Inside, Some(TOMLS[4]), two));
                                emit(doc(Place::Notebook, None, two));
                            }
                        }
                    }
                }
            }
            layer = layer.iter().flat_map(|t| PARTS.iter().map(move |s| format!("{t}{s}"))).collect();
        }
    }
    fn judge(&self, case: &Doc, ctx: &mut Ctx) -> Verdict {
        let scratch = Scratch::new();
        let folder = scratch.path().join("w");
        std::fs::create_dir(&folder).unwrap();
        if let Some(toml) = &case.toml {
            std::fs::write(folder.join("air.toml"), toml).unwrap();
        }
        let configured = settings(case.toml.as_deref(), &folder)?;
        let default = FormatSettings::default();
        let applies = case.toml.is_some() && !matches!(case.place, Place::Outside | Place::Notebook);
        let (uri, settings, client) = match case.place {
            Place::Inside => (file_url(&folder.join("d.R")).to_string(), &configured, Some(case.indent)),
            Place::Renv => (file_url(&folder.join("renv/d.R")).to_string(), &configured, Some(case.indent)),
            Place::Outside => (file_url(&scratch.path().join("d.R")).to_string(), &default, Some(case.indent)),
            // the only workspace's settings
            Place::Untitled => ("untitled:Untitled-1".to_string(), &configured, Some(case.indent)),
            Place::Notebook => ("vscode-notebook-cell:/n.Rmd#c1".to_string(), &default, Some(case.indent)),
        };
        let client = if applies { None } else { client };
        let excluded = match case.place {
            Place::Inside => case.toml.as_deref().is_some_and(|t| t.contains("d.R")),
            Place::Renv => !case.toml.as_deref().is_some_and(|t| t.contains("default-exclude = false")),
            _ => false,
        };

        let text = if case.crlf { crlf(&case.text) } else { case.text.clone() };
        let mut server = Server::start(Options { enc: case.enc, configuration: false, folders: vec![file_url(&folder)] })?;
        server.open(&uri, 1, &text);
        let edits = server.format(&uri, case.indent)?;
        ctx.step(1);
        ctx.state(&(&text, case.place, &case.toml, case.indent));

        let formatted = if excluded { None } else { command_line(&text, settings, client)? };
        ctx.outcome(match (&formatted, excluded) {
            (_, true) => "excluded",
            (None, _) => "nothing to change",
            (Some(_), _) => "formatted",
        });
        let want = match formatted {
            None => text.clone(),
            Some(formatted) => {
                let formatted = if case.crlf { crlf(&formatted) } else { normal(&formatted) };
                match case.place {
                    Place::Notebook => match formatted.strip_suffix("\r\n").or(formatted.strip_suffix('\n')) {
                        Some(cell) => cell.to_string(),
                        None => formatted,
                    },
                    _ => formatted,
                }
            }
        };
        let edits = edits.unwrap_or_default();
        let got = apply(&text, case.enc, &edits)?;
        ensure_eq!(got, want, "{text:?} with {edits:?}");
        ensure!(edits.is_empty() || got != text, "edits without effect: {text:?} with {edits:?}");
        // the client makes the edits, tells the server, and asks again
        if !edits.is_empty() {
            server.notify(
                "textDocument/didChange",
                serde_json::json!({
                    "textDocument": { "uri": uri, "version": 2 },
                    "contentChanges": [{ "text": got }],
                }),
            );
            let again = server.format(&uri, case.indent)?.unwrap_or_default();
            ctx.step(1);
            if case.place != Place::Notebook {
                let twice = command_line(&got, settings, client)?.unwrap_or(got.clone());
                let twice = if case.crlf { crlf(&twice) } else { normal(&twice) };
                ensure_eq!(apply(&got, case.enc, &again)?, twice, "formatting again {got:?} with {again:?}");
            }
        }
        Ok(())
    }
}
