//! S07 requests and notifications under every order of events

use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

use crate::client::{Enc, apply};
use crate::format::file_url;
use crate::history::configuration;
use crate::server::{Indent, Options, Server, format_params};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Message {
    Open(u8),
    /// Puts a line at the start
    Change(u8),
    Close(u8),
    Format(u8),
    /// The first line
    Range(u8),
    View(u8),
    /// Cancels the last request
    Cancel,
    /// Configuration is written, and the server is told
    Configure,
    Folder,
    /// The server will ask for the client's settings
    Settings,
    /// A method that does not exist
    Unknown,
    /// A notification whose parameters make no sense
    Garbled,
}
use Message::*;

#[derive(Clone, Serialize, Deserialize)]
pub struct Script {
    messages: Vec<Message>,
    /// Whether the client has settings that the server asks for
    configuration: bool,
    /// Times the server can run, between two things the client does
    ticks: u8,
}

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    /// The document is one of these after the edits (for ranges too)
    Text(String, Vec<String>),
    Anything,
    Error,
}

/// What the client can do next
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Act {
    Send,
    Tick,
    /// Answers the oldest question of the server
    Reply,
}

struct Run {
    scratch: Option<Scratch>,
    server: Server,
    texts: BTreeMap<u8, (String, i32)>,
    configured: bool,
    folder: bool,
    last: Option<i64>,
    expected: HashMap<i64, (Message, Answer, bool)>,
    got: HashMap<i64, Vec<Value>>,
    asked: Vec<Value>,
}

const OPTIONS: Indent = Indent { width: 4, spaces: true };

impl Run {
    fn new(script: &Script) -> Result<Run, String> {
        let scratch = script.messages.contains(&Configure).then(Scratch::new);
        if let Some(scratch) = &scratch {
            std::fs::create_dir(scratch.path().join("w")).unwrap();
        }
        let server = Server::start(Options { enc: Enc::Utf16, configuration: script.configuration, folders: vec![] })?;
        Ok(Run {
            scratch,
            server,
            texts: BTreeMap::new(),
            configured: false,
            folder: false,
            last: None,
            expected: HashMap::new(),
            got: HashMap::new(),
            asked: Vec::new(),
        })
    }
    fn folder(&self) -> PathBuf {
        self.scratch.as_ref().map_or(Path::new("/nonexistent"), |s| s.path()).join("w")
    }
    fn uri(&self, doc: u8) -> String {
        file_url(&self.folder().join(format!("{doc}.R"))).to_string()
    }
    /// What formatting can give at this place in the order
    fn formatted(&self, text: &str, lines: usize) -> Vec<String> {
        let widths = match (self.folder, self.configured) {
            (true, true) => &[3][..],
            // when it handles the folder, the server may see the file that is written later
            (true, false) if self.scratch.is_some() => &[4, 3],
            _ => &[4],
        };
        widths.iter().map(|width| Self::with(text, lines, *width)).collect()
    }
    fn with(text: &str, lines: usize, width: usize) -> String {
        let mut out = String::new();
        for (i, line) in text.lines().enumerate() {
            if i >= lines {
                out.push_str(line);
                out.push('\n');
            } else {
                let inner = line.trim_start_matches('{').trim_end_matches('}');
                out.push_str(&format!("{{\n{}{inner}\n}}\n", " ".repeat(width)));
            }
        }
        out
    }
    fn send(&mut self, message: Message) {
        let request = |run: &mut Run, method: &str, params: Value, answer: Answer| {
            let id = run.server.request(method, params);
            run.last = Some(id);
            run.expected.insert(id, (message, answer, false));
        };
        match message {
            Open(doc) => {
                let uri = self.uri(doc);
                let text = format!("{{{doc}}}\n");
                self.server.open(&uri, 1, &text);
                self.texts.insert(doc, (text, 1));
            }
            Change(doc) => {
                let uri = self.uri(doc);
                let version = match self.texts.get_mut(&doc) {
                    Some((text, version)) => {
                        *version += 1;
                        *text = format!("{{x{version}}}\n{text}");
                        *version
                    }
                    None => 2,
                };
                let range = json!({ "start": { "line": 0, "character": 0 }, "end": { "line": 0, "character": 0 } });
                self.server.notify(
                    "textDocument/didChange",
                    json!({
                        "textDocument": { "uri": uri, "version": version },
                        "contentChanges": [{ "range": range, "text": format!("{{x{version}}}\n") }],
                    }),
                );
            }
            Close(doc) => {
                let uri = self.uri(doc);
                self.server.close(&uri);
                self.texts.remove(&doc);
            }
            Format(doc) => {
                let answer = match self.texts.get(&doc) {
                    Some((text, _)) => Answer::Text(text.clone(), self.formatted(text, usize::MAX)),
                    None => Answer::Error,
                };
                let params = format_params(&self.uri(doc), OPTIONS);
                request(self, "textDocument/formatting", params, answer);
            }
            Range(doc) => {
                let answer = match self.texts.get(&doc) {
                    Some((text, _)) => Answer::Text(text.clone(), self.formatted(text, 1)),
                    None => Answer::Error,
                };
                let mut params = format_params(&self.uri(doc), OPTIONS);
                params["range"] = json!({ "start": { "line": 0, "character": 0 }, "end": { "line": 0, "character": 0 } });
                request(self, "textDocument/rangeFormatting", params, answer);
            }
            View(doc) => {
                let answer = if self.texts.contains_key(&doc) { Answer::Anything } else { Answer::Error };
                let params = json!({
                    "textDocument": { "uri": self.uri(doc) }, "position": { "line": 0, "character": 0 }, "kind": "SyntaxTree",
                });
                request(self, "air/viewFile", params, answer);
            }
            Cancel => {
                if let Some(id) = self.last {
                    self.server.notify("$/cancelRequest", json!({ "id": id }));
                    if let Some((_, _, cancelled)) = self.expected.get_mut(&id) {
                        *cancelled = true;
                    }
                }
            }
            Configure => {
                let path = self.folder().join("air.toml");
                std::fs::write(&path, "[format]\nindent-width = 3\n").unwrap();
                self.configured = true;
                let changes = json!({ "changes": [{ "uri": file_url(&path), "type": 1 }] });
                self.server.notify("workspace/didChangeWatchedFiles", changes);
            }
            Folder => {
                let folder = json!({ "uri": file_url(&self.folder()), "name": "w" });
                let params = json!({ "event": { "added": [folder], "removed": [] } });
                self.server.notify("workspace/didChangeWorkspaceFolders", params);
                self.folder = true;
            }
            Settings => self.server.notify("workspace/didChangeConfiguration", json!({ "settings": null })),
            Unknown => request(self, "textDocument/nothing", json!({}), Answer::Error),
            Garbled => self.server.notify("textDocument/didOpen", json!({ "textDocument": 1 })),
        }
    }
    fn collect(&mut self) {
        while let Some(message) = self.server.inbox.pop_front() {
            match (message.get("method"), message["id"].as_i64()) {
                (None, Some(id)) => self.got.entry(id).or_default().push(message),
                (Some(_), Some(_)) => self.asked.push(message),
                _ => {}
            }
        }
    }
    fn reply(&mut self) {
        let question = self.asked.remove(0);
        let items = question["params"]["items"].as_array().cloned().unwrap_or_default();
        let values: Vec<Value> = items.iter().map(|item| configuration(item, false)).collect();
        self.server.send(json!({ "jsonrpc": "2.0", "id": question["id"], "result": values }));
    }
    fn finish(&mut self) {
        loop {
            self.server.settle();
            self.collect();
            if self.asked.is_empty() {
                break;
            }
            self.reply();
        }
    }
    fn verdict(&self) -> Verdict {
        for (id, (message, answer, cancelled)) in &self.expected {
            let got = self.got.get(id).map_or(&[][..], |list| &list[..]);
            let [got] = got else { return Err(format!("{} answers to {message:?}", got.len()).into()) };
            let error = got.get("error");
            if *cancelled && error.is_some_and(|e| e["code"] == -32800) {
                continue;
            }
            match answer {
                Answer::Anything => ensure!(error.is_none(), "{message:?} failed: {got}"),
                Answer::Error => ensure!(error.is_some(), "{message:?} did not fail: {got}"),
                Answer::Text(text, want) => {
                    ensure!(error.is_none(), "{message:?} failed: {got}");
                    let edits: Option<Vec<_>> = serde_json::from_value(got["result"].clone()).map_err(|e| e.to_string())?;
                    let after = apply(text, Enc::Utf16, &edits.unwrap_or_default())
                        .map_err(|e| format!("{message:?} was not answered for the text at its place: {e}"))?;
                    ensure!(want.contains(&after), "{message:?} was not answered with the state at its place: {after:?}, expected {want:?}");
                }
            }
        }
        for id in self.got.keys() {
            ensure!(self.expected.contains_key(id), "an answer to something never asked: {id}");
        }
        Ok(())
    }
}

pub struct Orders;

impl Orders {
    /// One run: the choices as given, then always the first; returns how many choices there were
    /// at each place
    fn run(&self, script: &Script, choices: &[usize], ctx: &mut Ctx) -> Result<Vec<usize>, mc::Failure> {
        let mut run = Run::new(script)?;
        let mut sent = 0;
        let mut ticks = 0;
        let mut width = Vec::new();
        let mut trace = Vec::new();
        while sent < script.messages.len() {
            let mut acts = Vec::new();
            acts.push(Act::Send);
            if ticks < script.ticks && sent > 0 {
                acts.push(Act::Tick);
            }
            if !run.asked.is_empty() {
                acts.push(Act::Reply);
            }
            let n = choices.get(width.len()).copied().unwrap_or(0);
            width.push(acts.len());
            trace.push(acts[n]);
            match acts[n] {
                Act::Send => {
                    run.send(script.messages[sent]);
                    sent += 1;
                    ticks = 0;
                }
                Act::Tick => {
                    run.server.tick();
                    run.collect();
                    ticks += 1;
                }
                Act::Reply => {
                    run.reply();
                    ticks = 0;
                }
            }
            ctx.step(1);
        }
        ctx.state(&(&script.messages, script.configuration, &trace));
        run.finish();
        // still there, with everything that was sent
        for doc in [0, 1] {
            run.send(Format(doc));
        }
        run.finish();
        ensure!(!run.server.ended(), "the server stopped");
        if let Err(mut failure) = run.verdict() {
            failure.what = format!("{:?} as {trace:?}: {}", script.messages, failure.what);
            return Err(failure);
        }
        Ok(width)
    }
}

impl Check for Orders {
    type Case = Script;
    fn id(&self) -> &'static str {
        "S07"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all sequences of at most {} messages out of 16 (opening, changing, closing, formatting, formatting a range of, viewing either of two documents, also ones not open; cancelling; configuration files; folders; settings; unknown and garbled messages), and of {} out of fewer; for each all orders of the client's sending, the server's running (up to one or two turns in between) and the client's answers to the server's questions",
            tier.pick(3, 4),
            tier.pick("four", "five and six")
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("the tasks run on one thread: they share nothing but channels, so that the order of messages is all that matters".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Script)) {
        let all = [
            Open(0), Change(0), Close(0), Format(0), Range(0), View(0), Open(1), Change(1), Close(1), Format(1), Cancel, Configure,
            Folder, Settings, Unknown, Garbled,
        ];
        let few = [Change(0), Format(0), Open(1), Close(0), Settings, Cancel, Configure];
        let mut scripts = |prefix: &[Message], alphabet: &[Message], n: usize, ticks: u8| {
            let mut layer = vec![prefix.to_vec()];
            for _ in 0..n {
                layer = layer.iter().flat_map(|l| alphabet.iter().map(move |m| [&l[..], &[*m]].concat())).collect();
            }
            for messages in layer {
                // configuration once, and folders once
                let count = |m| messages.iter().filter(|x| **x == m).count();
                let opened = |doc| {
                    let mut open = false;
                    messages.iter().all(|m| match m {
                        Open(d) if *d == doc => !std::mem::replace(&mut open, true),
                        Close(d) if *d == doc => {
                            open = false;
                            true
                        }
                        _ => true,
                    })
                };
                if count(Configure) > 1 || count(Folder) > 1 || !opened(0) || !opened(1) {
                    continue;
                }
                // nothing may be asked of it when the client has no settings to give
                for configuration in [false, true] {
                    emit(Script { messages: messages.clone(), configuration, ticks });
                }
            }
        };
        for n in 1..=tier.pick(3, 4) {
            scripts(&[], &all, n, if n > tier.pick(2, 3) { 1 } else { 2 });
        }
        scripts(&[Folder, Open(0)], &few, tier.pick(3, 4), 1);
        scripts(&[Open(0), Format(0), Format(0)], &few, tier.pick(2, 3), 1);
    }
    fn judge(&self, case: &Script, ctx: &mut Ctx) -> Verdict {
        // all choices, in order
        let mut choices: Vec<usize> = Vec::new();
        let mut runs = 0;
        loop {
            let width = self.run(case, &choices, ctx)?;
            runs += 1;
            choices.resize(width.len(), 0);
            while let Some(last) = choices.pop() {
                if last + 1 < width[choices.len()] {
                    choices.push(last + 1);
                    break;
                }
            }
            if choices.is_empty() {
                break;
            }
        }
        ctx.outcome(if runs == 1 { "one order" } else { "several orders" });
        Ok(())
    }
}
