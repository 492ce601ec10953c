use std::borrow::Cow;

use serde::{Deserialize, Serialize};
use serde_json::Value;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ErrorCode {
    ParseError,
    InvalidRequest,
    MethodNotFound,
    InvalidParams,
    InternalError,
    RequestCancelled,
    ServerNotInitialized,
    ServerError(i64),
}

impl ErrorCode {
    pub const fn code(&self) -> i64 {
        match self {
            ErrorCode::ParseError => -32700,
            ErrorCode::InvalidRequest => -32600,
            ErrorCode::MethodNotFound => -32601,
            ErrorCode::InvalidParams => -32602,
            ErrorCode::InternalError => -32603,
            ErrorCode::RequestCancelled => -32800,
            ErrorCode::ServerNotInitialized => -32002,
            ErrorCode::ServerError(code) => *code,
        }
    }
}

impl Serialize for ErrorCode {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.code().serialize(s)
    }
}

impl<'de> Deserialize<'de> for ErrorCode {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        i64::deserialize(d).map(ErrorCode::ServerError)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Error {
    pub code: ErrorCode,
    pub message: Cow<'static, str>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub data: Option<Value>,
}

impl Error {
    pub(crate) fn new(code: ErrorCode, message: impl Into<Cow<'static, str>>) -> Error {
        Error { code, message: message.into(), data: None }
    }
    pub fn internal_error() -> Error {
        Error::new(ErrorCode::InternalError, "Internal error")
    }
    pub fn method_not_found() -> Error {
        Error::new(ErrorCode::MethodNotFound, "Method not found")
    }
    pub fn invalid_params(message: impl Into<Cow<'static, str>>) -> Error {
        Error::new(ErrorCode::InvalidParams, message)
    }
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}: {}", self.code, self.message)
    }
}

impl std::error::Error for Error {}
