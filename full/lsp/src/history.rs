//! S06 settings over histories of folders and configuration files; S10 their synchronisation
//! with the client

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use mc::{Check, Ctx, Scratch, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

use crate::client::Enc;
use crate::format::file_url;
use crate::server::{Indent, Options, Server};

/// Directories: `p`, `w` in it, `s` in that
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Dir {
    P,
    W,
    S,
}
use Dir::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Content {
    Three,
    Five,
    /// Says nothing
    Empty,
    /// Not valid
    Bad,
}

impl Content {
    fn text(self) -> &'static str {
        match self {
            Content::Three => "[format]\nindent-width = 3\n",
            Content::Five => "[format]\nindent-width = 5\n",
            Content::Empty => "",
            Content::Bad => "[format]\nindent-width = 6\nindent-style = \"tabs\"\n",
        }
    }
    fn width(self) -> Option<u8> {
        match self {
            Content::Three => Some(3),
            Content::Five => Some(5),
            Content::Empty => Some(2),
            Content::Bad => None,
        }
    }
}

/// A configuration file: where, whether its name has a dot, and what it says now (nothing: deleted)
type Write = (Dir, bool, Option<Content>);

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum Event {
    OpenFolder(Dir),
    CloseFolder(Dir),
    /// Changes to files, in one notification
    Files(Vec<Write>),
    /// Changes of both kinds in one notification
    Swap(Dir, Dir),
    /// The document with this index
    Open(usize),
    Close(usize),
    /// The client's setting whether it wants to know of settings
    Sync(bool),
}

#[derive(Clone, Serialize, Deserialize)]
pub struct History {
    folders: Vec<Dir>,
    files: Vec<Write>,
    docs: Vec<usize>,
    events: Vec<Event>,
}

const CLIENT: u8 = 7;

/// Documents, by the directory they are in
const DOCS: [Option<Dir>; 4] = [Some(W), Some(S), Some(P), None];

/// What is the case, and what follows from it
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct World {
    folders: BTreeSet<Dir>,
    files: BTreeMap<(Dir, bool), Content>,
    open: BTreeSet<usize>,
    sync: bool,
}

impl World {
    fn can(&self, event: &Event) -> bool {
        match event {
            Event::OpenFolder(dir) => !self.folders.contains(dir),
            Event::CloseFolder(dir) => self.folders.contains(dir),
            Event::Files(writes) => writes.iter().all(|(dir, dot, content)| self.files.get(&(*dir, *dot)) != content.as_ref()),
            Event::Swap(from, to) => self.folders.contains(from) && !self.folders.contains(to),
            Event::Open(doc) => !self.open.contains(doc),
            Event::Close(doc) => self.open.contains(doc),
            Event::Sync(on) => self.sync != *on,
        }
    }
    fn step(&mut self, event: &Event) {
        match event {
            Event::OpenFolder(dir) => {
                self.folders.insert(*dir);
            }
            Event::CloseFolder(dir) => {
                self.folders.remove(dir);
            }
            Event::Files(writes) => {
                for (dir, dot, content) in writes {
                    match content {
                        Some(content) => self.files.insert((*dir, *dot), *content),
                        None => self.files.remove(&(*dir, *dot)),
                    };
                }
            }
            Event::Swap(from, to) => {
                self.folders.remove(from);
                self.folders.insert(*to);
            }
            Event::Open(doc) => {
                self.open.insert(*doc);
            }
            Event::Close(doc) => {
                self.open.remove(doc);
            }
            Event::Sync(on) => self.sync = *on,
        }
    }
    /// The indent width configured for a document
    fn configured(&self, doc: usize) -> Option<u8> {
        let folder = match DOCS[doc] {
            // the innermost folder it is in
            Some(dir) => *self.folders.iter().rev().find(|folder| **folder <= dir)?,
            // not saved: the folder, if there is only one
            None => match self.folders.iter().collect::<Vec<_>>()[..] {
                [folder] => *folder,
                _ => return None,
            },
        };
        // the closest file from there upwards
        let file = [S, W, P].into_iter().filter(|dir| *dir <= folder).find_map(|dir| {
            self.files.get(&(dir, false)).or(self.files.get(&(dir, true)))
        });
        file.and_then(|content| content.width())
    }
}

/// The real server in a directory of its own, with the world it should follow
struct Play {
    scratch: Scratch,
    server: Server,
    world: World,
    version: i32,
    /// What the client knows: the last message with settings
    known: Option<BTreeMap<String, (u64, String)>>,
}

impl Play {
    fn dir(&self, dir: Dir) -> PathBuf {
        Self::path(self.scratch.path(), dir)
    }
    fn path(root: &Path, dir: Dir) -> PathBuf {
        match dir {
            P => root.join("p"),
            W => root.join("p/w"),
            S => root.join("p/w/s"),
        }
    }
    fn uri(&self, doc: usize) -> String {
        match DOCS[doc] {
            Some(dir) => file_url(&self.dir(dir).join("d.R")).to_string(),
            None => "untitled:d".into(),
        }
    }
    fn write(root: &Path, (dir, dot, content): &Write) -> PathBuf {
        let path = Self::path(root, *dir).join(if *dot { ".air.toml" } else { "air.toml" });
        match content {
            Some(content) => std::fs::write(&path, content.text()).unwrap(),
            None => std::fs::remove_file(&path).unwrap(),
        }
        path
    }
    fn start(case: &History, configuration: bool) -> Result<Play, String> {
        let scratch = Scratch::new();
        std::fs::create_dir_all(Self::path(scratch.path(), S)).unwrap();
        let mut world = World { folders: BTreeSet::new(), files: BTreeMap::new(), open: BTreeSet::new(), sync: false };
        for file in &case.files {
            Self::write(scratch.path(), file);
            world.step(&Event::Files(vec![*file]));
        }
        for folder in &case.folders {
            world.step(&Event::OpenFolder(*folder));
        }
        let folders = case.folders.iter().map(|dir| file_url(&Self::path(scratch.path(), *dir))).collect();
        let server = Server::start(Options { enc: Enc::Utf16, configuration, folders })?;
        let mut play = Play { scratch, server, world, version: 0, known: None };
        for doc in &case.docs {
            play.event(&Event::Open(*doc));
        }
        Ok(play)
    }
    fn event(&mut self, event: &Event) {
        let folder = |dir: Dir| json!({ "uri": file_url(&self.dir(dir)), "name": "f" });
        let folders = "workspace/didChangeWorkspaceFolders";
        match event {
            Event::OpenFolder(dir) => {
                let params = json!({ "event": { "added": [folder(*dir)], "removed": [] } });
                self.server.notify(folders, params);
            }
            Event::CloseFolder(dir) => {
                let params = json!({ "event": { "added": [], "removed": [folder(*dir)] } });
                self.server.notify(folders, params);
            }
            Event::Swap(from, to) => {
                let params = json!({ "event": { "added": [folder(*to)], "removed": [folder(*from)] } });
                self.server.notify(folders, params);
            }
            Event::Files(writes) => {
                let mut changes = Vec::new();
                for write in writes {
                    let new = !self.world.files.contains_key(&(write.0, write.1));
                    let path = Self::write(self.scratch.path(), write);
                    let kind = match (write.2, new) {
                        (None, _) => 3,
                        (_, true) => 1,
                        (_, false) => 2,
                    };
                    changes.push(json!({ "uri": file_url(&path), "type": kind }));
                }
                self.server.notify("workspace/didChangeWatchedFiles", json!({ "changes": changes }));
            }
            Event::Open(doc) => {
                let uri = self.uri(*doc);
                self.version += 1;
                self.server.open(&uri, self.version, "{1}");
            }
            Event::Close(doc) => {
                let uri = self.uri(*doc);
                self.server.close(&uri);
            }
            Event::Sync(_) => {}
        }
        self.world.step(event);
        if let Event::Sync(_) = event {
            self.server.notify("workspace/didChangeConfiguration", json!({ "settings": null }));
        }
        self.settle();
    }
    /// Answers what the server asks for, and notes what it says
    fn settle(&mut self) {
        loop {
            self.server.settle();
            let Some(at) = self.server.inbox.iter().position(|m| m.get("method").is_some()) else { break };
            let message = self.server.inbox.remove(at).unwrap();
            match message["method"].as_str().unwrap() {
                "workspace/configuration" => {
                    let items = message["params"]["items"].as_array().unwrap();
                    let values: Vec<Value> = items.iter().map(|item| configuration(item, self.world.sync)).collect();
                    self.server.send(json!({ "jsonrpc": "2.0", "id": message["id"], "result": values }));
                }
                "air/syncFileSettings" => {
                    let mut known = BTreeMap::new();
                    for file in message["params"]["file_settings"].as_array().unwrap() {
                        let format = &file["format"];
                        known.insert(
                            file["url"].as_str().unwrap().to_string(),
                            (format["indent_width"].as_u64().unwrap(), format["indent_style"].as_str().unwrap().to_string()),
                        );
                    }
                    self.known = Some(known);
                }
                _ => {}
            }
        }
    }
    /// The width a document is formatted with
    fn width(&mut self, doc: usize) -> Result<u8, String> {
        let uri = self.uri(doc);
        let edits = self.server.format(&uri, Indent { width: CLIENT, spaces: true })?.unwrap_or_default();
        let text = crate::client::apply("{1}", Enc::Utf16, &edits)?;
        let line = text.lines().nth(1).ok_or_else(|| format!("formatted as {text:?}"))?;
        Ok((line.len() - line.trim_start_matches(' ').len()) as u8)
    }
}

/// The client's settings
pub fn configuration(item: &Value, sync: bool) -> Value {
    match item["section"].as_str().unwrap() {
        "editor.insertSpaces" => json!(true),
        "editor.indentSize" => json!("tabSize"),
        "editor.tabSize" => json!(CLIENT),
        "air.syncFileSettingsWithClient" => json!(sync),
        _ => Value::Null,
    }
}

/// All histories of events that are possible one after the other
fn histories(start: &World, events: &[Event], depth: usize, f: &mut dyn FnMut(&[Event])) {
    fn go(world: &World, events: &[Event], depth: usize, path: &mut Vec<Event>, f: &mut dyn FnMut(&[Event])) {
        if depth == 0 {
            return f(path);
        }
        for event in events {
            if world.can(event) {
                let mut next = world.clone();
                next.step(event);
                path.push(event.clone());
                go(&next, events, depth - 1, path, f);
                path.pop();
            }
        }
    }
    go(start, events, depth, &mut Vec::new(), f)
}

fn world(folders: &[Dir], files: &[Write], docs: &[usize]) -> World {
    World {
        folders: folders.iter().copied().collect(),
        files: files.iter().filter_map(|(dir, dot, content)| Some(((*dir, *dot), (*content)?))).collect(),
        open: docs.iter().copied().collect(),
        sync: false,
    }
}

// ---------------------------------------------------------------------------------------

pub struct Follow;

impl Check for Follow {
    type Case = History;
    fn id(&self) -> &'static str {
        "S06"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "three nested directories, of which any two can be workspace folders; all histories of {} events out of: opening, closing or exchanging folders, writing `air.toml` or `.air.toml` with either of two settings, no settings or invalid ones in a directory, deleting it, two of these in one notification; from {} initial states; after every event the settings of documents in each directory and of one not saved",
            tier.pick("three", "four (with fewer kinds of events)"),
            STARTS.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("the client tells the server of every change to a configuration file (the protocol's file watching)".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(History)) {
        let all = events(true);
        let few = events(false);
        for (folders, files) in STARTS {
            let docs = vec![0, 1, 2, 3];
            let mut put = |list: &[Event]| {
                emit(History { folders: folders.to_vec(), files: files.to_vec(), docs: docs.clone(), events: list.to_vec() })
            };
            let start = world(folders, files, &docs);
            for depth in 0..=2 {
                histories(&start, &all, depth, &mut put);
            }
            histories(&start, tier.pick(&few, &all), 3, &mut put);
            if tier == Tier::Thorough {
                histories(&start, &few, 4, &mut put);
            }
        }
    }
    fn judge(&self, case: &History, ctx: &mut Ctx) -> Verdict {
        let mut play = Play::start(case, false)?;
        for i in 0..=case.events.len() {
            if i > 0 {
                play.event(&case.events[i - 1]);
                ctx.step(1);
            }
            // what came before the last event is checked in the shorter histories too
            if i < case.events.len() && i > 0 {
                continue;
            }
            ctx.state(&play.world);
            for doc in 0..DOCS.len() {
                let configured = play.world.configured(doc);
                let width = play.width(doc)?;
                ensure_eq!(width, configured.unwrap_or(CLIENT), "width for {:?} after {} of {case}", DOCS[doc], i, case = serde_json::to_string(case).unwrap());
                ctx.outcome(match (DOCS[doc], configured) {
                    (None, None) => "unsaved, the client's settings",
                    (None, _) => "unsaved, configured",
                    (_, None) => "the client's settings",
                    (_, _) => "configured",
                });
            }
        }
        Ok(())
    }
}

const STARTS: &[(&[Dir], &[Write])] = &[
    (&[], &[]),
    (&[W], &[]),
    (&[W, S], &[(W, false, Some(Content::Three))]),
    (&[S], &[(P, false, Some(Content::Five))]),
    (&[W], &[(W, true, Some(Content::Bad))]),
    (&[P, W], &[(P, true, Some(Content::Three))]),
];

fn events(all: bool) -> Vec<Event> {
    let mut out = Vec::new();
    for dir in [W, S] {
        out.push(Event::OpenFolder(dir));
        out.push(Event::CloseFolder(dir));
    }
    out.push(Event::Swap(W, S));
    if all {
        out.push(Event::OpenFolder(P));
        out.push(Event::CloseFolder(P));
        out.push(Event::Swap(S, P));
    }
    let contents: &[Content] =
        if all { &[Content::Three, Content::Five, Content::Empty, Content::Bad] } else { &[Content::Three, Content::Five, Content::Bad] };
    for dir in [P, W, S] {
        for dot in [false, true] {
            if !all && (dot && dir != W) {
                continue;
            }
            for content in contents {
                out.push(Event::Files(vec![(dir, dot, Some(*content))]));
            }
            out.push(Event::Files(vec![(dir, dot, None)]));
        }
    }
    out.push(Event::Files(vec![(W, false, Some(Content::Five)), (S, false, Some(Content::Three))]));
    out.push(Event::Files(vec![(W, false, None), (W, true, Some(Content::Five))]));
    out
}

// ---------------------------------------------------------------------------------------

pub struct Sync;

impl Check for Sync {
    type Case = History;
    fn id(&self) -> &'static str {
        "S10"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all histories of at most {} events out of: opening and closing documents in two directories, an unsaved one, opening and closing two nested workspace folders, writing valid or invalid configuration there, deleting it, turning synchronisation on and off; after every event what the client was last told of the open documents",
            tier.pick(4, 5)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("the client forgets what it was told before when it is told something new, as the VS Code extension does".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(History)) {
        let mut events = vec![
            Event::Open(0),
            Event::Open(1),
            Event::Close(0),
            Event::OpenFolder(W),
            Event::CloseFolder(W),
            Event::OpenFolder(S),
            Event::CloseFolder(S),
            Event::Sync(true),
            Event::Sync(false),
            Event::Files(vec![(W, false, Some(Content::Three))]),
            Event::Files(vec![(W, false, Some(Content::Bad))]),
            Event::Files(vec![(W, false, None)]),
            Event::Files(vec![(S, false, Some(Content::Five))]),
        ];
        if tier == Tier::Thorough {
            events.push(Event::Open(3));
            events.push(Event::Files(vec![(S, false, None)]));
        }
        let starts: &[(&[Dir], &[Write], &[usize], bool)] = &[
            (&[W], &[(W, false, Some(Content::Three))], &[], true),
            (&[W], &[(W, false, Some(Content::Three))], &[0, 3], true),
            (&[], &[(W, false, Some(Content::Three)), (S, true, Some(Content::Five))], &[0, 1], false),
            (&[W, S], &[(S, false, Some(Content::Five))], &[1], true),
        ];
        for (folders, files, docs, sync) in starts {
            let start = world(folders, files, docs);
            for depth in 0..=tier.pick(4, 5) {
                let start = World { sync: *sync, ..start.clone() };
                histories(&start, &events, depth, &mut |list| {
                    let mut events = Vec::new();
                    if *sync {
                        events.push(Event::Sync(true));
                    }
                    events.extend(list.iter().cloned());
                    emit(History { folders: folders.to_vec(), files: files.to_vec(), docs: docs.to_vec(), events })
                });
            }
        }
    }
    fn judge(&self, case: &History, ctx: &mut Ctx) -> Verdict {
        let mut play = Play::start(case, true)?;
        for event in &case.events {
            play.event(event);
            ctx.step(1);
        }
        ctx.state(&play.world);
        if !play.world.sync {
            ctx.outcome("off");
            return Ok(());
        }
        let known = play.known.clone().unwrap_or_default();
        for doc in play.world.open.clone() {
            let want = play.world.configured(doc).map(|width| (width as u64, "space".to_string()));
            let got = known.get(&play.uri(doc)).cloned();
            ensure!(got == want, "the client was told {got:?} for {:?} and not {want:?} after {}", DOCS[doc], serde_json::to_string(case).unwrap());
            ctx.outcome(if want.is_some() { "configured" } else { "not configured" });
        }
        Ok(())
    }
}
