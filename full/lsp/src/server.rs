//! The real server, driven through its two byte streams.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use serde_json::{Value, json};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tower_lsp::lsp_types::{Range, TextEdit};
use url::Url;

use crate::client::Enc;

#[derive(Default)]
struct Buffer {
    bytes: VecDeque<u8>,
    waker: Option<Waker>,
}

#[derive(Clone, Default)]
struct Pipe(Rc<RefCell<Buffer>>);

impl Pipe {
    fn put(&self, bytes: &[u8]) {
        let mut buffer = self.0.borrow_mut();
        buffer.bytes.extend(bytes);
        if let Some(waker) = buffer.waker.take() {
            waker.wake();
        }
    }
}

impl AsyncRead for Pipe {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut buffer = self.0.borrow_mut();
        if buffer.bytes.is_empty() {
            buffer.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = out.remaining().min(buffer.bytes.len());
        let bytes: Vec<u8> = buffer.bytes.drain(..n).collect();
        out.put_slice(&bytes);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, bytes: &[u8]) -> Poll<std::io::Result<usize>> {
        self.put(bytes);
        Poll::Ready(Ok(bytes.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub struct Options {
    pub enc: Enc,
    /// Whether the client answers requests for its configuration
    pub configuration: bool,
    pub folders: Vec<Url>,
}

pub struct Server {
    rt: tokio::runtime::Runtime,
    serve: Pin<Box<dyn Future<Output = ()>>>,
    ended: bool,
    input: Pipe,
    output: Pipe,
    partial: Vec<u8>,
    next: i64,
    /// What the server sent, oldest first
    pub inbox: VecDeque<Value>,
}

pub type Formatting = Result<Option<Vec<TextEdit>>, String>;

impl Server {
    /// Before the handshake
    pub fn raw() -> Server {
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let (input, output) = (Pipe::default(), Pipe::default());
        let serve = {
            let _guard = rt.enter();
            Box::pin(lsp::start_lsp(input.clone(), output.clone()))
        };
        Server { rt, serve, ended: false, input, output, partial: Vec::new(), next: 1, inbox: VecDeque::new() }
    }

    pub fn start(options: Options) -> Result<Server, String> {
        let encoding = match options.enc {
            Enc::Utf8 => json!(["utf-16", "utf-8"]),
            Enc::Utf16 => json!(["utf-32", "utf-16"]),
            Enc::Utf32 => return Err("the server does not offer this encoding".into()),
        };
        let folders: Vec<Value> = options.folders.iter().map(|uri| json!({ "uri": uri, "name": "w" })).collect();
        let (mut server, out) = Server::begin(json!({
            "processId": null,
            "rootUri": null,
            "capabilities": {
                "general": { "positionEncodings": encoding },
                "workspace": { "configuration": options.configuration }
            },
            "workspaceFolders": folders,
        }))?;
        let want = if let Enc::Utf8 = options.enc { "utf-8" } else { "utf-16" };
        if out["capabilities"]["positionEncoding"] != want {
            return Err(format!("expected to use {want}: {out}"));
        }
        server.notify("initialized", json!({}));
        server.settle();
        Ok(server)
    }

    /// As far as the answer to `initialize`
    pub fn begin(params: Value) -> Result<(Server, Value), String> {
        let mut server = Server::raw();
        let out = server.call("initialize", params)?;
        Ok((server, out))
    }

    /// Lets the server do what it can with the input it has, once
    pub fn tick(&mut self) {
        let Server { rt, serve, ended, .. } = self;
        rt.block_on(async {
            std::future::poll_fn(|cx| {
                if !*ended {
                    *ended = serve.as_mut().poll(cx).is_ready();
                }
                Poll::Ready(())
            })
            .await;
            tokio::task::yield_now().await;
        });
        self.receive();
    }

    /// Until nothing more happens
    pub fn settle(&mut self) {
        let mut quiet = 0;
        while quiet < 3 {
            let before = self.inbox.len();
            self.tick();
            quiet = if self.inbox.len() == before { quiet + 1 } else { 0 };
        }
    }

    pub fn ended(&self) -> bool {
        self.ended
    }

    fn receive(&mut self) {
        self.partial.extend(self.output.0.borrow_mut().bytes.drain(..));
        while let Some(at) = self.partial.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = String::from_utf8_lossy(&self.partial[..at]).into_owned();
            let n: usize = head.trim_start_matches("Content-Length:").trim().parse().unwrap();
            if self.partial.len() < at + 4 + n {
                break;
            }
            self.inbox.push_back(serde_json::from_slice(&self.partial[at + 4..at + 4 + n]).unwrap());
            self.partial.drain(..at + 4 + n);
        }
    }

    pub fn send(&mut self, message: Value) {
        let body = message.to_string();
        self.input.put(format!("Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes());
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(json!({ "jsonrpc": "2.0", "method": method, "params": params }));
    }

    pub fn request(&mut self, method: &str, params: Value) -> i64 {
        let id = self.next;
        self.next += 1;
        let mut message = json!({ "jsonrpc": "2.0", "id": id, "method": method });
        if !params.is_null() {
            message["params"] = params;
        }
        self.send(message);
        id
    }

    /// The answer to a request, if it has arrived
    pub fn answer_to(&mut self, id: i64) -> Option<Value> {
        let at = self.inbox.iter().position(|m| m.get("method").is_none() && m["id"] == id)?;
        self.inbox.remove(at)
    }

    pub fn call(&mut self, method: &str, params: Value) -> Result<Value, String> {
        let id = self.request(method, params);
        self.settle();
        result(self.answer_to(id).ok_or_else(|| format!("no answer to {method}"))?)
    }

    pub fn open(&mut self, uri: &str, version: i32, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({ "textDocument": { "uri": uri, "languageId": "r", "version": version, "text": text } }),
        );
    }

    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({ "textDocument": { "uri": uri } }));
    }

    pub fn format(&mut self, uri: &str, options: Indent) -> Formatting {
        let out = self.call("textDocument/formatting", format_params(uri, options))?;
        serde_json::from_value(out).map_err(|e| e.to_string())
    }

    pub fn format_range(&mut self, uri: &str, range: Range, options: Indent) -> Formatting {
        let mut params = format_params(uri, options);
        params["range"] = serde_json::to_value(range).unwrap();
        let out = self.call("textDocument/rangeFormatting", params)?;
        serde_json::from_value(out).map_err(|e| e.to_string())
    }
}

/// The client's own settings for a document
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub struct Indent {
    pub width: u8,
    pub spaces: bool,
}

pub fn format_params(uri: &str, options: Indent) -> Value {
    json!({ "textDocument": { "uri": uri }, "options": { "tabSize": options.width, "insertSpaces": options.spaces } })
}

pub fn result(answer: Value) -> Result<Value, String> {
    match answer.get("error") {
        Some(error) => Err(error["message"].as_str().unwrap_or("?").to_string()),
        None => Ok(answer["result"].clone()),
    }
}
