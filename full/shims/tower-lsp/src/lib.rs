//! Stand-in for `tower-lsp`: messages are dispatched in the order they arrive, at most four handlers
//! run at a time, answers of the client are routed past them.

pub mod jsonrpc;
pub mod lsp_types;

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};

use futures::channel::{mpsc, oneshot};
use futures::future::{AbortHandle, Abortable};
use futures::{SinkExt, StreamExt};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
pub use shim_macros::identity as async_trait;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use jsonrpc::{Error, ErrorCode, Result};
use lsp_types::*;

/// Handlers that run at the same time
const CONCURRENCY: usize = 4;

const UNINITIALIZED: u8 = 0;
const INITIALIZING: u8 = 1;
const INITIALIZED: u8 = 2;
const SHUT_DOWN: u8 = 3;
const EXITED: u8 = 4;

#[allow(async_fn_in_trait)]
pub trait LanguageServer: Send + Sync + 'static {
    async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult>;
    async fn initialized(&self, _: InitializedParams) {}
    async fn shutdown(&self) -> Result<()>;
    async fn did_change_workspace_folders(&self, _: DidChangeWorkspaceFoldersParams) {}
    async fn did_change_configuration(&self, _: DidChangeConfigurationParams) {}
    async fn did_change_watched_files(&self, _: DidChangeWatchedFilesParams) {}
    async fn did_open(&self, _: DidOpenTextDocumentParams) {}
    async fn did_change(&self, _: DidChangeTextDocumentParams) {}
    async fn did_save(&self, _: DidSaveTextDocumentParams) {}
    async fn did_close(&self, _: DidCloseTextDocumentParams) {}
    async fn formatting(&self, _: DocumentFormattingParams) -> Result<Option<Vec<TextEdit>>> {
        Err(Error::method_not_found())
    }
    async fn range_formatting(&self, _: DocumentRangeFormattingParams) -> Result<Option<Vec<TextEdit>>> {
        Err(Error::method_not_found())
    }
}

/// The server's way to the client
#[derive(Clone)]
pub struct Client {
    inner: Arc<ClientInner>,
}

struct ClientInner {
    tx: mpsc::Sender<Value>,
    pending: Mutex<HashMap<i64, oneshot::Sender<Value>>>,
    next: AtomicI64,
    state: Arc<AtomicU8>,
}

impl std::fmt::Debug for Client {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Client")
    }
}

impl Client {
    async fn send(&self, message: Value) {
        let _ = self.inner.tx.clone().send(message).await;
    }

    async fn notify(&self, method: &str, params: impl Serialize) {
        if self.inner.state.load(Ordering::SeqCst) == INITIALIZED {
            self.send(json!({ "jsonrpc": "2.0", "method": method, "params": params })).await
        }
    }

    async fn request<R: DeserializeOwned>(&self, method: &str, params: impl Serialize) -> Result<R> {
        if self.inner.state.load(Ordering::SeqCst) != INITIALIZED {
            return Err(Error::new(ErrorCode::ServerNotInitialized, "Server not initialized"));
        }
        let id = self.inner.next.fetch_add(1, Ordering::SeqCst);
        let (tx, rx) = oneshot::channel();
        self.inner.pending.lock().unwrap().insert(id, tx);
        self.send(json!({ "jsonrpc": "2.0", "id": id, "method": method, "params": params })).await;
        let mut answer = rx.await.map_err(|_| Error::internal_error())?;
        match answer.get("error") {
            Some(error) => Err(serde_json::from_value(error.clone()).unwrap_or_else(|_| Error::internal_error())),
            None => serde_json::from_value(answer["result"].take())
                .map_err(|error| Error::new(ErrorCode::ParseError, error.to_string())),
        }
    }

    pub async fn register_capability(&self, registrations: Vec<Registration>) -> Result<()> {
        self.request("client/registerCapability", RegistrationParams { registrations }).await
    }
    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> Result<Vec<Value>> {
        self.request("workspace/configuration", ConfigurationParams { items }).await
    }
    pub async fn log_message(&self, typ: MessageType, message: impl std::fmt::Display) {
        let message = message.to_string();
        self.notify("window/logMessage", LogMessageParams { typ, message }).await
    }
    pub async fn publish_diagnostics(&self, uri: Url, diagnostics: Vec<Diagnostic>, version: Option<i32>) {
        let params = PublishDiagnosticsParams { uri, diagnostics, version };
        self.notify("textDocument/publishDiagnostics", params).await
    }
    pub async fn send_notification<N: notification::Notification>(&self, params: N::Params) {
        self.notify(N::METHOD, params).await
    }
}

type Answer = Pin<Box<dyn Future<Output = Result<Value>>>>;
type Handler<S> = Rc<dyn Fn(Arc<S>, Value) -> Answer>;

pub trait Method<S, P> {
    type Out: Serialize;
    fn invoke(&self, server: S, params: P) -> impl Future<Output = Result<Self::Out>>;
}

impl<S, P, F, Fut, R: Serialize> Method<S, P> for F
where
    F: Fn(S, P) -> Fut,
    Fut: Future<Output = Result<R>>,
{
    type Out = R;
    fn invoke(&self, server: S, params: P) -> impl Future<Output = Result<R>> {
        self(server, params)
    }
}

pub struct LspServiceBuilder<S> {
    service: LspService<S>,
    socket: ClientSocket,
}

pub struct LspService<S> {
    server: Arc<S>,
    methods: HashMap<&'static str, Handler<S>>,
    state: Arc<AtomicU8>,
}

pub struct ClientSocket {
    client: Client,
    rx: mpsc::Receiver<Value>,
}

impl<S: LanguageServer> LspService<S> {
    pub fn build(init: impl FnOnce(Client) -> S) -> LspServiceBuilder<S> {
        let (tx, rx) = mpsc::channel(1);
        let state = Arc::new(AtomicU8::new(UNINITIALIZED));
        let client = Client {
            inner: Arc::new(ClientInner {
                tx,
                pending: Default::default(),
                next: AtomicI64::new(0),
                state: state.clone(),
            }),
        };
        let server = Arc::new(init(client.clone()));
        LspServiceBuilder {
            service: LspService { server, methods: HashMap::new(), state },
            socket: ClientSocket { client, rx },
        }
    }
}

impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<P, F>(mut self, name: &'static str, method: F) -> Self
    where
        P: DeserializeOwned + 'static,
        F: for<'a> Method<&'a S, P> + Clone + 'static,
    {
        let handler = move |server: Arc<S>, params: Value| -> Answer {
            let method = method.clone();
            Box::pin(async move {
                let params = params_of(params)?;
                let out = method.invoke(&server, params).await?;
                Ok(serde_json::to_value(out).unwrap())
            })
        };
        self.service.methods.insert(name, Rc::new(handler));
        self
    }

    pub fn finish(self) -> (LspService<S>, ClientSocket) {
        (self.service, self.socket)
    }
}

fn params_of<P: DeserializeOwned>(params: Value) -> Result<P> {
    serde_json::from_value(params).map_err(|error| Error::invalid_params(error.to_string()))
}

impl<S: LanguageServer> LspService<S> {
    fn call(&self, method: &str, params: Value) -> Answer {
        let server = self.server.clone();
        macro_rules! request {
            ($name:ident) => {
                Box::pin(async move {
                    let out = server.$name(params_of(params)?).await?;
                    Ok(serde_json::to_value(out).unwrap())
                })
            };
        }
        macro_rules! notification {
            ($name:ident) => {
                Box::pin(async move {
                    if let Ok(params) = params_of(params) {
                        server.$name(params).await;
                    }
                    Ok(Value::Null)
                })
            };
        }
        let state = self.state.clone();
        match (self.state.load(Ordering::SeqCst), method) {
            (UNINITIALIZED, "initialize") => {
                self.state.store(INITIALIZING, Ordering::SeqCst);
                Box::pin(async move {
                    let out = match params_of(params) {
                        Ok(params) => server.initialize(params).await,
                        Err(error) => Err(error),
                    };
                    let next = if out.is_ok() { INITIALIZED } else { UNINITIALIZED };
                    state.store(next, Ordering::SeqCst);
                    out.map(|out| serde_json::to_value(out).unwrap())
                })
            }
            (_, "initialize") => failure(ErrorCode::InvalidRequest, "Invalid request"),
            (UNINITIALIZED | INITIALIZING, _) => {
                failure(ErrorCode::ServerNotInitialized, "Server not initialized")
            }
            (SHUT_DOWN | EXITED, _) => failure(ErrorCode::InvalidRequest, "Invalid request"),
            (_, "shutdown") => {
                self.state.store(SHUT_DOWN, Ordering::SeqCst);
                Box::pin(async move { server.shutdown().await.map(|()| Value::Null) })
            }
            (_, "textDocument/formatting") => request!(formatting),
            (_, "textDocument/rangeFormatting") => request!(range_formatting),
            (_, "initialized") => notification!(initialized),
            (_, "workspace/didChangeWorkspaceFolders") => notification!(did_change_workspace_folders),
            (_, "workspace/didChangeConfiguration") => notification!(did_change_configuration),
            (_, "workspace/didChangeWatchedFiles") => notification!(did_change_watched_files),
            (_, "textDocument/didOpen") => notification!(did_open),
            (_, "textDocument/didChange") => notification!(did_change),
            (_, "textDocument/didSave") => notification!(did_save),
            (_, "textDocument/didClose") => notification!(did_close),
            (_, method) => match self.methods.get(method) {
                Some(handler) => handler(server, params),
                None => failure(ErrorCode::MethodNotFound, "Method not found"),
            },
        }
    }
}

fn failure(code: ErrorCode, message: &'static str) -> Answer {
    Box::pin(async move { Err(Error::new(code, message)) })
}

pub struct Server<I, O> {
    read: I,
    write: O,
    socket: ClientSocket,
}

impl<I: AsyncRead + Unpin, O: AsyncWrite> Server<I, O> {
    pub fn new(read: I, write: O, socket: ClientSocket) -> Self {
        Server { read, write, socket }
    }

    pub async fn serve<S: LanguageServer>(self, service: LspService<S>) {
        let Server { mut read, write, socket: ClientSocket { client, rx } } = self;
        let (mut tasks_tx, tasks_rx) = mpsc::channel::<Pin<Box<dyn Future<Output = Option<Value>>>>>(100);
        let (mut answers_tx, answers_rx) = mpsc::channel::<Value>(0);
        let (to_client, stop) = futures::stream::abortable(rx);
        let running: Rc<RefCell<HashMap<String, AbortHandle>>> = Default::default();
        let closed = Rc::new(Cell::new(false));

        let input = {
            let client = client.clone();
            async move {
                let mut buffer = Vec::new();
                while let Some(mut message) = frame(&mut read, &mut buffer).await {
                    let Some(method) = message["method"].as_str().map(str::to_owned) else {
                        let waiting = message["id"].as_i64().and_then(|id| client.inner.pending.lock().unwrap().remove(&id));
                        if let Some(waiting) = waiting {
                            let _ = waiting.send(message);
                        }
                        continue;
                    };
                    if method == "exit" {
                        service.state.store(EXITED, Ordering::SeqCst);
                        break;
                    }
                    if method == "$/cancelRequest" {
                        if let Some(task) = running.borrow_mut().remove(&message["params"]["id"].to_string()) {
                            task.abort();
                        }
                        continue;
                    }
                    let call = service.call(&method, message["params"].take());
                    let id = message.get("id").cloned();
                    let task: Pin<Box<dyn Future<Output = Option<Value>>>> = match id {
                        None => Box::pin(async move {
                            let _ = call.await;
                            None
                        }),
                        Some(id) => {
                            let (handle, registration) = AbortHandle::new_pair();
                            running.borrow_mut().insert(id.to_string(), handle);
                            let running = running.clone();
                            Box::pin(async move {
                                let out = Abortable::new(call, registration).await;
                                running.borrow_mut().remove(&id.to_string());
                                let out = out.unwrap_or(Err(Error::new(ErrorCode::RequestCancelled, "Canceled")));
                                Some(match out {
                                    Ok(result) => json!({ "jsonrpc": "2.0", "result": result, "id": id }),
                                    Err(error) => json!({ "jsonrpc": "2.0", "error": error, "id": id }),
                                })
                            })
                        }
                    };
                    if tasks_tx.send(task).await.is_err() {
                        break;
                    }
                }
                drop(tasks_tx);
                stop.abort();
                drop(service);
            }
        };
        let work = async move {
            let mut done = tasks_rx.buffer_unordered(CONCURRENCY);
            while let Some(answer) = done.next().await {
                if let Some(answer) = answer {
                    let _ = answers_tx.send(answer).await;
                }
            }
        };
        let output = {
            let closed = closed.clone();
            async move {
                let mut write = std::pin::pin!(write);
                let mut out = futures::stream::select(answers_rx, to_client);
                while let Some(message) = out.next().await {
                    let body = message.to_string();
                    let head = format!("Content-Length: {}\r\n\r\n", body.len());
                    let bytes = [head.as_bytes(), body.as_bytes()].concat();
                    if write.write_all(&bytes).await.is_err() || write.flush().await.is_err() {
                        closed.set(true);
                        break;
                    }
                }
            }
        };
        futures::join!(output, input, work);
    }
}

async fn frame(read: &mut (impl AsyncRead + Unpin), buffer: &mut Vec<u8>) -> Option<Value> {
    loop {
        if let Some(end) = buffer.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = std::str::from_utf8(&buffer[..end]).ok()?;
            let length: usize = head
                .lines()
                .find_map(|line| line.strip_prefix("Content-Length:"))?
                .trim()
                .parse()
                .ok()?;
            let (from, to) = (end + 4, end + 4 + length);
            if buffer.len() >= to {
                let message = serde_json::from_slice(&buffer[from..to]).ok()?;
                buffer.drain(..to);
                return Some(message);
            }
        }
        if read.read_buf(buffer).await.ok()? == 0 {
            return None;
        }
    }
}
