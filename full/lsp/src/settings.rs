//! S11 what the editor's settings do

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use tracing_subscriber::{current, filter::Targets};

use crate::format::file_url;
use crate::server::{Indent, Server};

/// What the client has: log level, that of dependencies, synchronization
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Values {
    level: Value,
    dependencies: Value,
    sync: Value,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Fault {
    Error,
    None,
    TooFew,
    TooMany,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Event {
    /// The settings change, and the server is told
    Change(Values),
    /// As above, but they have no effect that can be foreseen
    Garbage(Values),
    /// The server is told that something changed, and does not get a proper answer
    Fails(Fault),
    /// Another document
    Open,
    /// Another document, and no proper answer
    OpenFails(Fault),
    Format,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Initialization options; nothing: none given
    options: Option<Value>,
    /// Whether the client can answer questions; register for settings; register for files
    can: [bool; 3],
    client: Option<String>,
    first: Values,
    events: Vec<Event>,
}

const AIR: &[&str] = &["air", "lsp", "workspace", "air_r_formatter", "air_r_parser", "settings"];
const OTHERS: &[&str] = &["tokio", "tower_lsp", "ignore", "other"];
/// In the order of the settings in `settings_vsc.rs`
const EDITOR: &[&str] = &["editor.insertSpaces", "editor.indentSize", "editor.tabSize"];

/// The settings that the extension declares: those meant for the server, and the log levels
fn declared() -> &'static (Vec<String>, Vec<String>) {
    static DECLARED: OnceLock<(Vec<String>, Vec<String>)> = OnceLock::new();
    DECLARED.get_or_init(|| {
        let text = std::fs::read_to_string("/repo/editors/code/package.json").expect("package.json");
        let package: Value = serde_json::from_str(&text).expect("package.json");
        let all = package["contributes"]["configuration"]["properties"].as_object().expect("properties");
        // The others are the extension's own
        let ours = all.iter().filter(|(_, p)| p["scope"] == "application").map(|(name, _)| name.clone()).collect();
        let levels = all["air.logLevel"]["enum"].as_array().expect("levels");
        (ours, levels.iter().map(|l| l.as_str().unwrap().to_string()).collect())
    })
}

/// How much is logged, as documented
fn level(value: &Value) -> Option<u8> {
    match value {
        Value::Null => Some(3),
        Value::String(name) => Some(match name.as_str() {
            "error" => 1,
            "warn" | "warning" => 2,
            "info" => 3,
            "debug" => 4,
            "trace" => 5,
            _ => return None,
        }),
        _ => None,
    }
}

fn others(value: &Value) -> Option<Vec<u8>> {
    let filter = match value {
        Value::Null => Targets::new(),
        Value::String(text) => text.parse().unwrap_or_default(),
        _ => return None,
    };
    Some(OTHERS.iter().map(|target| filter.level_of(target)).collect())
}

fn scratch() -> &'static Path {
    static DIR: OnceLock<Scratch> = OnceLock::new();
    DIR.get_or_init(|| {
        let dir = Scratch::new();
        std::fs::create_dir(dir.path().join("w")).unwrap();
        std::fs::write(dir.path().join("w/air.toml"), "[format]\nindent-width = 3\n").unwrap();
        dir
    })
    .path()
}

struct Play<'a> {
    server: Server,
    case: &'a Case,
    /// What the client answers
    values: Values,
    fault: Option<Fault>,
    /// What the server asked for
    asked: Vec<Value>,
    syncs: usize,
    folder: bool,
    docs: usize,
    /// What it may log and do
    levels: BTreeSet<u8>,
    others: Vec<Vec<u8>>,
    sync: BTreeSet<bool>,
}

impl Play<'_> {
    fn settle(&mut self) -> Result<(), String> {
        loop {
            self.server.settle();
            let Some(at) = self.server.inbox.iter().position(|m| m.get("method").is_some()) else { break };
            let message = self.server.inbox.remove(at).unwrap();
            let id = &message["id"];
            match message["method"].as_str().unwrap() {
                "workspace/configuration" => {
                    if !self.case.can[0] {
                        return Err("asks for settings of a client that has none".into());
                    }
                    let items = message["params"]["items"].as_array().unwrap();
                    self.asked = items.clone();
                    let mut values: Vec<Value> = items
                        .iter()
                        .map(|item| match item["section"].as_str().unwrap_or("") {
                            "editor.insertSpaces" => json!(true),
                            "editor.indentSize" => json!("tabSize"),
                            "editor.tabSize" => json!(4),
                            "air.logLevel" => self.values.level.clone(),
                            "air.dependencyLogLevels" => self.values.dependencies.clone(),
                            "air.syncFileSettingsWithClient" => self.values.sync.clone(),
                            _ => Value::Null,
                        })
                        .collect();
                    match self.fault.take() {
                        Some(Fault::Error) => {
                            let error = json!({ "code": -32603, "message": "not now" });
                            self.server.send(json!({ "jsonrpc": "2.0", "id": id, "error": error }));
                            continue;
                        }
                        Some(Fault::None) => {
                            self.server.send(json!({ "jsonrpc": "2.0", "id": id, "result": null }));
                            continue;
                        }
                        Some(Fault::TooFew) => {
                            values.pop();
                        }
                        Some(Fault::TooMany) => values.push(json!(true)),
                        None => {}
                    }
                    self.server.send(json!({ "jsonrpc": "2.0", "id": id, "result": values }));
                }
                "client/registerCapability" => {
                    self.server.send(json!({ "jsonrpc": "2.0", "id": id, "result": null }));
                }
                "air/syncFileSettings" => self.syncs += 1,
                _ => {}
            }
        }
        Ok(())
    }

    /// The client's settings are as the server was told
    fn pulled(&mut self) {
        if !self.case.can[0] {
            return;
        }
        self.levels = level(&self.values.level).into_iter().collect();
        self.others = others(&self.values.dependencies).into_iter().collect();
        // Settings that the client has no value for need not replace what it said first
        if let Some(options) = &self.case.options {
            if self.values.level.is_null() {
                self.levels.extend(level(&options["logLevel"]));
            }
            if self.values.dependencies.is_null() {
                self.others.extend(others(&options["dependencyLogLevels"]));
            }
        }
        self.sync = [self.values.sync == json!(true)].into();
    }

    fn open(&mut self) -> Result<(), String> {
        self.docs += 1;
        let uri = file_url(&scratch().join(format!("w/{}.R", self.docs))).to_string();
        self.server.open(&uri, 1, "{1}");
        self.settle()
    }

    fn judge(&mut self, when: &str) -> Result<(), String> {
        let case = serde_json::to_string(self.case).unwrap();
        let filter = current::get().ok_or("logging was not set up")?;
        let levels: BTreeSet<u8> = AIR.iter().map(|target| filter.level_of(target)).collect();
        if levels.len() != 1 || !levels.is_subset(&self.levels) {
            return Err(format!("air logs at {levels:?} and not {:?} {when} in {case}", self.levels));
        }
        let others: Vec<u8> = OTHERS.iter().map(|target| filter.level_of(target)).collect();
        if !self.others.contains(&others) {
            return Err(format!("{OTHERS:?} log at {others:?} and not {:?} {when} in {case}", self.others));
        }
        // The settings of documents change with the folder
        self.syncs = 0;
        let folder = json!([{ "uri": file_url(&scratch().join("w")), "name": "w" }]);
        let (added, removed) = if self.folder { (json!([]), folder) } else { (folder, json!([])) };
        self.folder = !self.folder;
        self.server.notify("workspace/didChangeWorkspaceFolders", json!({ "event": { "added": added, "removed": removed } }));
        self.settle()?;
        if !self.sync.contains(&(self.syncs > 0)) {
            return Err(format!("synchronization is {} and not {:?} {when} in {case}", self.syncs > 0, self.sync));
        }
        Ok(())
    }
}

/// Does one of the watchers match this path?
fn watches(registrations: &[Value], path: &str) -> bool {
    fn expand(pattern: &str) -> Vec<String> {
        let Some(open) = pattern.find('{') else { return vec![pattern.to_string()] };
        let Some(close) = pattern[open..].find('}').map(|at| at + open) else { return vec![pattern.to_string()] };
        pattern[open + 1..close].split(',').flat_map(|part| expand(&format!("{}{part}{}", &pattern[..open], &pattern[close + 1..]))).collect()
    }
    fn matches(pattern: &[u8], path: &[u8]) -> bool {
        match pattern {
            [] => path.is_empty(),
            [b'*', b'*', b'/', rest @ ..] => matches(rest, path) || (0..path.len()).any(|i| path[i] == b'/' && matches(rest, &path[i + 1..])),
            [b'*', rest @ ..] => (0..=path.len()).take_while(|i| !path[..*i].contains(&b'/')).any(|i| matches(rest, &path[i..])),
            [b'?', rest @ ..] => !path.is_empty() && path[0] != b'/' && matches(rest, &path[1..]),
            [c, rest @ ..] => path.first() == Some(c) && matches(rest, &path[1..]),
        }
    }
    registrations.iter().filter(|r| r["method"] == "workspace/didChangeWatchedFiles").any(|r| {
        r["registerOptions"]["watchers"].as_array().is_some_and(|all| {
            all.iter().any(|w| {
                let kind = w["kind"].as_u64().unwrap_or(7);
                kind == 7 && w["globPattern"].as_str().is_some_and(|p| expand(p).iter().any(|p| matches(p.as_bytes(), path.as_bytes())))
            })
        })
    })
}

pub struct Client;

impl Check for Client {
    type Case = Case;
    fn id(&self) -> &'static str {
        "S11"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all initialization options with each of the declared values, null or none for each setting, for three kinds of client; all combinations of client capabilities; all histories of {} events out of: changes to {} combinations of values, requests, opened documents, and answers of four faulty kinds; after every event what is logged and synchronized",
            tier.pick("at most two", "at most three"),
            some(tier).len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("what is logged follows from the filter given to the logging library; the environment variables that override it are not set".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let none = Values { level: Value::Null, dependencies: Value::Null, sync: Value::Null };
        let case = |options: &Option<Value>, can: [bool; 3], first: &Values, events: Vec<Event>| Case { options: options.clone(), can, client: None, first: first.clone(), events };
        let mut options: Vec<Option<Value>> = vec![None, Some(Value::Null), Some(json!({}))];
        for level in levels() {
            for deps in dependencies() {
                let mut o = json!({});
                if let Some(level) = &level {
                    o["logLevel"] = level.clone();
                }
                if let Some(deps) = &deps {
                    o["dependencyLogLevels"] = deps.clone();
                }
                options.push(Some(o.clone()));
                // What other versions may want to know
                o["somethingElse"] = json!({ "a": [1] });
                options.push(Some(o));
            }
        }
        for o in &options {
            for can in 0..8 {
                emit(case(o, [can & 1 > 0, can & 2 > 0, can & 4 > 0], &none, vec![]));
            }
            for client in ["Zed", "Visual Studio Code - Insiders", "AirTestClient", "Neovim"] {
                emit(Case { client: Some(client.into()), ..case(o, [true; 3], &none, vec![Event::Format]) });
            }
        }
        // Every value once
        let mut every = Vec::new();
        for level in levels() {
            for deps in dependencies() {
                for sync in [Value::Null, json!(true), json!(false)] {
                    every.push(Values { level: level.clone().unwrap_or_default(), dependencies: deps.clone().unwrap_or_default(), sync });
                }
            }
        }
        for values in &every {
            for o in [&options[0], &options[2], &Some(json!({ "logLevel": "debug", "dependencyLogLevels": "tokio=trace" }))] {
                emit(case(o, [true; 3], values, vec![]));
                emit(case(o, [true, false, false], &none, vec![Event::Change(values.clone())]));
                emit(case(o, [false; 3], values, vec![Event::Change(values.clone())]));
                emit(case(o, [true; 3], values, vec![Event::Change(none.clone())]));
            }
        }
        // Histories
        let some = some(tier);
        let mut events = vec![Event::Open, Event::Format];
        for values in &some {
            events.push(Event::Change(values.clone()));
        }
        for fault in [Fault::Error, Fault::None, Fault::TooFew, Fault::TooMany] {
            events.push(Event::Fails(fault));
            events.push(Event::OpenFails(fault));
        }
        for (field, wrong) in [("level", json!("loud")), ("level", json!(3)), ("level", json!("DEBUG")), ("dependencies", json!(["tokio"])), ("sync", json!("yes")), ("sync", json!(1))] {
            let mut values = serde_json::to_value(&some[some.len() - 1]).unwrap();
            values[field] = wrong;
            events.push(Event::Garbage(serde_json::from_value(values).unwrap()));
        }
        for first in &some {
            mc::words(events.len(), tier.pick(2, 3), &mut |word| {
                if tier == Tier::Thorough && word.len() == 3 && word.iter().any(|w| *w > 12 && w % 3 != 0) {
                    return;
                }
                emit(case(&options[0], [true; 3], first, word.iter().map(|i| events[*i].clone()).collect()));
            });
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        current::set(None);
        let mut params = json!({
            "processId": null,
            "rootUri": null,
            "capabilities": {
                "workspace": {
                    "configuration": case.can[0],
                    "didChangeConfiguration": { "dynamicRegistration": case.can[1] },
                    "didChangeWatchedFiles": { "dynamicRegistration": case.can[2] },
                }
            },
            "workspaceFolders": [],
        });
        if let Some(options) = &case.options {
            params["initializationOptions"] = options.clone();
        }
        if let Some(client) = &case.client {
            params["clientInfo"] = json!({ "name": client });
        }
        let (mut server, _) = Server::begin(params)?;
        server.notify("initialized", json!({}));
        server.settle();

        // What it wants to be told
        let mut registrations = Vec::new();
        while let Some(at) = server.inbox.iter().position(|m| m["method"] == "client/registerCapability") {
            let message = server.inbox.remove(at).unwrap();
            registrations.extend(message["params"]["registrations"].as_array().cloned().unwrap_or_default());
            server.send(json!({ "jsonrpc": "2.0", "id": message["id"], "result": null }));
            server.settle();
        }
        let ids: BTreeSet<&str> = registrations.iter().filter_map(|r| r["id"].as_str()).collect();
        ensure_eq!(ids.len(), registrations.len(), "ids of registrations");
        let mut sections: BTreeSet<String> = BTreeSet::new();
        for r in &registrations {
            if r["method"] == "workspace/didChangeConfiguration" {
                match &r["registerOptions"]["section"] {
                    Value::Array(all) => sections.extend(all.iter().filter_map(|s| s.as_str()).map(String::from)),
                    one => sections.extend(one.as_str().map(String::from)),
                }
            }
        }
        let wants = |section: &str| sections.iter().any(|s| s == section || section.starts_with(&format!("{s}.")));
        if case.can[1] {
            for section in declared().0.iter().map(|s| s.as_str()).chain(EDITOR.iter().copied()) {
                ensure!(wants(section), "changes of {section} go unnoticed: registered for {sections:?}");
            }
        } else {
            ensure!(sections.is_empty(), "registers for settings with a client that does not support it");
        }
        let files = registrations.iter().any(|r| r["method"] == "workspace/didChangeWatchedFiles");
        if case.can[2] {
            for path in ["/w/air.toml", "/w/.air.toml", "/w/a/b/air.toml", "/w/a/.b/.air.toml"] {
                ensure!(watches(&registrations, path), "changes of {path} go unnoticed: {registrations:?}");
            }
        } else {
            ensure!(!files, "registers for files with a client that does not support it");
        }

        // What it was told first
        let options = case.options.clone().unwrap_or_default();
        let mut play = Play {
            server,
            case,
            values: case.first.clone(),
            fault: None,
            asked: Vec::new(),
            syncs: 0,
            folder: false,
            docs: 0,
            levels: level(&options["logLevel"]).into_iter().collect(),
            others: others(&options["dependencyLogLevels"]).into_iter().collect(),
            sync: [false].into(),
        };
        play.judge("at the start")?;
        ctx.step(1);
        play.open()?;
        play.pulled();
        if case.can[0] {
            for section in &declared().0 {
                ensure!(play.asked.iter().any(|item| item["section"] == **section), "never asks for {section}: {:?}", play.asked);
            }
        }
        play.judge("when the first document is open")?;
        for (i, event) in case.events.iter().enumerate() {
            ctx.step(1);
            match event {
                Event::Change(values) | Event::Garbage(values) => {
                    let before = (play.levels.clone(), play.others.clone(), play.sync.clone());
                    play.values = values.clone();
                    play.server.notify("workspace/didChangeConfiguration", json!({ "settings": null }));
                    play.settle()?;
                    play.pulled();
                    // Of what makes no sense, all or parts may be ignored
                    if let Event::Garbage(_) = event {
                        play.levels.extend(before.0);
                        play.levels.insert(3);
                        play.others.extend(before.1);
                        play.others.extend(others(&Value::Null));
                        play.sync.extend(before.2);
                    }
                }
                Event::Fails(fault) => {
                    play.fault = Some(*fault);
                    play.server.notify("workspace/didChangeConfiguration", json!({ "settings": null }));
                    play.settle()?;
                }
                Event::Open => {
                    let before = (play.levels.clone(), play.others.clone(), play.sync.clone());
                    play.open()?;
                    play.pulled();
                    if level(&play.values.level).is_none() || others(&play.values.dependencies).is_none() || !(play.values.sync.is_null() || play.values.sync.is_boolean()) {
                        play.levels.extend(before.0);
                        play.others.extend(before.1);
                        play.sync.extend(before.2);
                    }
                }
                Event::OpenFails(fault) => {
                    play.fault = Some(*fault);
                    play.open()?;
                }
                Event::Format => {}
            }
            if event == &Event::Format || i + 1 == case.events.len() {
                // It still works, whatever was answered
                for doc in 1..=play.docs {
                    let uri = file_url(&scratch().join(format!("w/{doc}.R"))).to_string();
                    let edits = play.server.format(&uri, Indent { width: 5, spaces: true })?.unwrap_or_default();
                    let text = crate::client::apply("{1}", crate::client::Enc::Utf16, &edits)?;
                    let width = if play.folder { "   " } else { "     " };
                    ensure_eq!(text, format!("{{\n{width}1\n}}\n"), "formatted in {}", serde_json::to_string(case).unwrap());
                }
                play.settle()?;
            }
            play.fault = None;
            play.judge(&format!("after event {}", i + 1))?;
        }
        ctx.state(&(&play.levels, &play.others, &play.sync, play.folder, play.docs));
        ctx.outcome(match (play.sync.first(), case.events.last()) {
            (_, Some(Event::Fails(_) | Event::OpenFails(_))) => "settings kept",
            (_, Some(Event::Garbage(_))) => "settings that make no sense",
            (Some(true), _) => "synchronized",
            _ => "not synchronized",
        });
        Ok(())
    }
}

fn levels() -> Vec<Option<Value>> {
    let mut all = vec![None, Some(Value::Null), Some(json!("warn"))];
    all.extend(declared().1.iter().map(|l| Some(json!(l))));
    all
}

fn dependencies() -> Vec<Option<Value>> {
    let mut all = vec![None, Some(Value::Null)];
    all.extend(["", "info", "tokio=info", "tower_lsp=debug,tokio=warn", "ignore", "tokio=loud", "lsp=trace,air=off", "off,ignore=trace"].map(|d| Some(json!(d))));
    all
}

fn some(tier: Tier) -> Vec<Values> {
    let mut all = Vec::new();
    for level in tier.pick(&["", "debug", "warning"][..], &["", "debug", "warning", "trace"]) {
        for deps in ["", "tokio=info"] {
            for sync in [Value::Null, json!(true), json!(false)] {
                if sync.is_null() && !level.is_empty() {
                    continue;
                }
                let value = |text: &str| if text.is_empty() { Value::Null } else { json!(text) };
                all.push(Values { level: value(level), dependencies: value(deps), sync });
            }
        }
    }
    all
}
