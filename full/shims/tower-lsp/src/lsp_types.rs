//! The protocol's types, as far as they are used.

use std::borrow::Cow;

use serde::{Deserialize, Serialize};
use serde_json::Value;
pub use url::Url;

macro_rules! types {
    ($($name:ident { $($(#[$meta:meta])* $field:ident: $ty:ty),* $(,)? })*) => {
        $(#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        pub struct $name {
            $($(#[$meta])* pub $field: $ty,)*
        })*
    };
}

macro_rules! types_default {
    ($($name:ident { $($(#[$meta:meta])* $field:ident: $ty:ty),* $(,)? })*) => {
        $(#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase", default)]
        pub struct $name {
            $(#[serde(skip_serializing_if = "Option::is_none")] $(#[$meta])* pub $field: Option<$ty>,)*
        })*
    };
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}

impl Position {
    pub fn new(line: u32, character: u32) -> Position {
        Position { line, character }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}

impl Range {
    pub fn new(start: Position, end: Position) -> Range {
        Range { start, end }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct PositionEncodingKind(Cow<'static, str>);

impl PositionEncodingKind {
    pub const UTF8: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-8"));
    pub const UTF16: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-16"));
    pub const UTF32: PositionEncodingKind = PositionEncodingKind(Cow::Borrowed("utf-32"));
    pub fn as_str(&self) -> &str {
        &self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct TextDocumentSyncKind(i32);
impl TextDocumentSyncKind {
    pub const NONE: TextDocumentSyncKind = TextDocumentSyncKind(0);
    pub const FULL: TextDocumentSyncKind = TextDocumentSyncKind(1);
    pub const INCREMENTAL: TextDocumentSyncKind = TextDocumentSyncKind(2);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct FileChangeType(i32);
impl FileChangeType {
    pub const CREATED: FileChangeType = FileChangeType(1);
    pub const CHANGED: FileChangeType = FileChangeType(2);
    pub const DELETED: FileChangeType = FileChangeType(3);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct MessageType(i32);
impl MessageType {
    pub const ERROR: MessageType = MessageType(1);
    pub const WARNING: MessageType = MessageType(2);
    pub const INFO: MessageType = MessageType(3);
    pub const LOG: MessageType = MessageType(4);
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> {
    Left(A),
    Right(B),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSyncCapability {
    Kind(TextDocumentSyncKind),
    Options(Value),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern {
    String(String),
    Relative(Value),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TextDocumentIdentifier {
    pub uri: Url,
}

types! {
    TextEdit { range: Range, new_text: String }
    VersionedTextDocumentIdentifier { uri: Url, version: i32 }
    TextDocumentItem { uri: Url, language_id: String, version: i32, text: String }
    TextDocumentContentChangeEvent {
        #[serde(default, skip_serializing_if = "Option::is_none")] range: Option<Range>,
        #[serde(default, skip_serializing_if = "Option::is_none")] range_length: Option<u32>,
        text: String,
    }
    DidOpenTextDocumentParams { text_document: TextDocumentItem }
    DidChangeTextDocumentParams {
        text_document: VersionedTextDocumentIdentifier,
        content_changes: Vec<TextDocumentContentChangeEvent>,
    }
    DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, #[serde(default)] text: Option<String> }
    DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
    DidChangeConfigurationParams { settings: Value }
    FileEvent { uri: Url, #[serde(rename = "type")] typ: FileChangeType }
    DidChangeWatchedFilesParams { changes: Vec<FileEvent> }
    WorkspaceFolder { uri: Url, name: String }
    WorkspaceFoldersChangeEvent { added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder> }
    DidChangeWorkspaceFoldersParams { event: WorkspaceFoldersChangeEvent }
    InitializedParams { }
    ClientInfo { name: String, #[serde(default)] version: Option<String> }
    ServerInfo { name: String, #[serde(default)] version: Option<String> }
    FormattingOptions {
        tab_size: u32,
        insert_spaces: bool,
        #[serde(default, skip_serializing_if = "Option::is_none")] trim_trailing_whitespace: Option<bool>,
        #[serde(default, skip_serializing_if = "Option::is_none")] insert_final_newline: Option<bool>,
        #[serde(default, skip_serializing_if = "Option::is_none")] trim_final_newlines: Option<bool>,
    }
    DocumentFormattingParams {
        text_document: TextDocumentIdentifier,
        options: FormattingOptions,
        #[serde(flatten)] work_done_progress_params: WorkDoneProgressParams,
    }
    DocumentRangeFormattingParams {
        text_document: TextDocumentIdentifier,
        range: Range,
        options: FormattingOptions,
        #[serde(flatten)] work_done_progress_params: WorkDoneProgressParams,
    }
    Diagnostic { range: Range, message: String }
    Registration {
        id: String,
        method: String,
        #[serde(default, skip_serializing_if = "Option::is_none")] register_options: Option<Value>,
    }
    RegistrationParams { registrations: Vec<Registration> }
    FileSystemWatcher {
        glob_pattern: GlobPattern,
        #[serde(default, skip_serializing_if = "Option::is_none")] kind: Option<u32>,
    }
    DidChangeWatchedFilesRegistrationOptions { watchers: Vec<FileSystemWatcher> }
    ConfigurationParams { items: Vec<ConfigurationItem> }
    LogMessageParams { #[serde(rename = "type")] typ: MessageType, message: String }
    PublishDiagnosticsParams { uri: Url, diagnostics: Vec<Diagnostic>, #[serde(default)] version: Option<i32> }
}

#[allow(clippy::derivable_impls)]
impl Default for FormattingOptions {
    fn default() -> Self {
        FormattingOptions {
            tab_size: 0,
            insert_spaces: false,
            trim_trailing_whitespace: None,
            insert_final_newline: None,
            trim_final_newlines: None,
        }
    }
}

types_default! {
    WorkDoneProgressParams { work_done_token: Value }
    DynamicRegistrationClientCapabilities { dynamic_registration: bool }
    GeneralClientCapabilities { position_encodings: Vec<PositionEncodingKind> }
    ConfigurationItem { scope_uri: Url, section: String }
    WorkspaceFoldersServerCapabilities { supported: bool, change_notifications: OneOf<bool, String> }
    WorkspaceServerCapabilities {
        workspace_folders: WorkspaceFoldersServerCapabilities,
        file_operations: Value,
    }
    ServerCapabilities {
        position_encoding: PositionEncodingKind,
        text_document_sync: TextDocumentSyncCapability,
        workspace: WorkspaceServerCapabilities,
        document_formatting_provider: OneOf<bool, Value>,
        document_range_formatting_provider: OneOf<bool, Value>,
        document_on_type_formatting_provider: Value,
        hover_provider: Value,
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct DidChangeWatchedFilesClientCapabilities {
    pub dynamic_registration: Option<bool>,
    pub relative_pattern_support: Option<bool>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct WorkspaceClientCapabilities {
    pub configuration: Option<bool>,
    pub workspace_folders: Option<bool>,
    pub did_change_configuration: Option<DidChangeConfigurationClientCapabilities>,
    pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct DidChangeConfigurationClientCapabilities {
    pub dynamic_registration: Option<bool>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct ClientCapabilities {
    pub workspace: Option<WorkspaceClientCapabilities>,
    pub text_document: Option<Value>,
    pub window: Option<Value>,
    pub general: Option<GeneralClientCapabilities>,
    pub experimental: Option<Value>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase", default)]
pub struct InitializeParams {
    pub process_id: Option<u32>,
    pub root_path: Option<String>,
    pub root_uri: Option<Url>,
    pub initialization_options: Option<Value>,
    pub capabilities: ClientCapabilities,
    pub workspace_folders: Option<Vec<WorkspaceFolder>>,
    pub client_info: Option<ClientInfo>,
    pub locale: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub server_info: Option<ServerInfo>,
}

pub mod notification {
    pub trait Notification {
        type Params: serde::de::DeserializeOwned + serde::Serialize + Send + Sync + 'static;
        const METHOD: &'static str;
    }
}
