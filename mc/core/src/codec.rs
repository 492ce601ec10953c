//! S08: framing of language server messages
//!
//! Streams of frames, cut into reads at every set of positions up to a bound, plus byte by
//! byte. The expected messages are those of the frames; the real decoder is driven as a
//! framed reader does.

use bytes::BytesMut;
use mc::{ensure, ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use tokio_util::codec::{Decoder, Encoder};
use wsmods::tower_lsp::codec::LanguageServerCodec;

#[derive(Serialize, Deserialize, Clone)]
pub enum Case {
    /// Frame kinds and positions where the stream is cut
    Stream(Vec<usize>, Vec<usize>),
    /// Byte by byte
    Bytes(Vec<usize>),
    /// A message to encode and decode again
    RoundTrip(String),
    /// Messages with bodies of this size, cut after so many bytes and so many before the end
    Large(usize, usize),
    /// Arbitrary text: no panic, nothing delivered that is not a complete message
    Noise(String),
}

#[derive(Clone, Debug, PartialEq)]
enum Expected {
    Message(Value),
    Nothing,
    Error,
}

fn frame(kind: usize) -> (String, Expected) {
    let plain = |body: &str| {
        (format!("Content-Length: {}\r\n\r\n{body}", body.len()), Expected::Message(serde_json::from_str(body).unwrap()))
    };
    match kind {
        0 => plain("{\"a\":1}"),
        1 => plain("[\"é𝄞\\n\"]"),
        2 => (
            "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: 1\r\n\r\n7".into(),
            Expected::Message(7.into()),
        ),
        3 => ("Content-Length: 0\r\n\r\n".into(), Expected::Nothing),
        4 => (
            "Content-Length: 4\r\nContent-Type: x; charset=utf8\r\n\r\nnull".into(),
            Expected::Message(Value::Null),
        ),
        5 => ("Content-Length: foobar\r\n\r\n".into(), Expected::Error),
        6 => ("Content-Length: 2\r\n\r\n{]".into(), Expected::Error),
        7 => ("X-Header: y\r\nContent-Length: 4\r\n\r\ntrue".into(), Expected::Message(true.into())),
        8 => plain("\"Content-Length: 3\\r\\n\\r\\n{}{\""),
        9 => ("Content-Type: x; charset=utf-8\r\n\r\n".into(), Expected::Error),
        _ => unreachable!(),
    }
}
const KINDS: usize = 10;

/// As a framed reader: decode as long as there is progress
fn drain(codec: &mut LanguageServerCodec<Value>, buffer: &mut BytesMut, out: &mut Vec<Expected>) -> Result<(), String> {
    for _ in 0..1000 {
        let before = buffer.len();
        match codec.decode(buffer) {
            Ok(Some(value)) => out.push(Expected::Message(value)),
            Ok(None) => {
                if buffer.len() == before || buffer.is_empty() {
                    return Ok(());
                }
            }
            Err(_) => {
                out.push(Expected::Error);
                if buffer.len() == before {
                    return Ok(());
                }
            }
        }
    }
    Err("the decoder makes no progress".into())
}

pub struct Codec;

impl Check for Codec {
    type Case = Case;
    fn id(&self) -> &'static str {
        "S08"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all sequences of up to {} frames of {KINDS} kinds (plain, multi-byte, with content type before or after, empty body, body that looks like a header, unknown header, bad length, no length, bad JSON), cut into reads byte by byte and at every set of up to {} positions; streams of up to {} frames in one read and of 7 frames in reads of every size up to {}; bodies of up to a megabyte cut in 20 places; round trips of all texts up to length {} over an alphabet that needs escaping; noise texts",
            3, tier.pick("2 (1 for three frames)", "3 (2 for three frames)"), tier.pick(40, 200), tier.pick(70, 200), tier.pick(4, 5)
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        for len in 1..=3 {
            mc::words_of(KINDS, len, &mut |word| {
                let kinds = word.to_vec();
                let length: usize = kinds.iter().map(|k| frame(*k).0.len()).sum();
                emit(Case::Bytes(kinds.clone()));
                emit(Case::Stream(kinds.clone(), vec![]));
                let cuts = if len == 3 { tier.pick(1, 2) } else { tier.pick(2, 3) };
                // three cuts on single frames and pairs of short ones only
                for a in 1..length {
                    emit(Case::Stream(kinds.clone(), vec![a]));
                    if cuts < 2 {
                        continue;
                    }
                    for b in a + 1..length {
                        emit(Case::Stream(kinds.clone(), vec![a, b]));
                        if cuts < 3 || length > 64 {
                            continue;
                        }
                        for c in b + 1..length {
                            emit(Case::Stream(kinds.clone(), vec![a, b, c]));
                        }
                    }
                }
            });
        }
        mc::texts(&["a", "é", "\"", "\\", "\r\n", "𝄞", "Content-Length: 5"], tier.pick(4, 5), &mut |text| {
            emit(Case::RoundTrip(text))
        });
        // Long streams: many messages in one read, and reads of every size
        for kind in [0, 1, 2, 3, 4, 7, 8] {
            for other in [0, 1, 2, 3, 5, 6] {
                for count in [4, 5, 8, 9, 16, 17, 33, tier.pick(40, 200)] {
                    let kinds: Vec<usize> = (0..count).map(|i| if i % 3 == 1 { other } else { kind }).collect();
                    emit(Case::Stream(kinds, vec![]));
                }
                let kinds = vec![kind, other, kind, kind, other, other, kind];
                let length: usize = kinds.iter().map(|k| frame(*k).0.len()).sum();
                for size in 1..=tier.pick(70, 200) {
                    emit(Case::Stream(kinds.clone(), (1..length).filter(|at| at % size == 0).collect()));
                }
            }
        }
        // Large bodies cut anywhere near the ends and around powers of two
        for size in [10, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 20] {
            for cut in [1, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 64, 128, 256, 1024, 4096, 8192, 8193, 65536] {
                emit(Case::Large(size, cut));
            }
        }
        for n in [9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 9998, 65535, 65536] {
            emit(Case::RoundTrip("x".repeat(n)));
        }
        mc::texts(
            &["Content-Length", ":", " ", "1", "\r\n", "{}", "é", "Content-Type: ", "\n", "-"],
            tier.pick(5, 6),
            &mut |text| emit(Case::Noise(text)),
        );
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        match case {
            Case::RoundTrip(text) => {
                let value = Value::String(text.clone());
                let mut codec = LanguageServerCodec::<Value>::default();
                let mut buffer = BytesMut::new();
                codec.encode(value.clone(), &mut buffer).map_err(|e| e.to_string())?;
                codec.encode(Value::Null, &mut buffer).map_err(|e| e.to_string())?;
                let body = serde_json::to_string(&value).unwrap();
                let want = format!("Content-Length: {}\r\n\r\n{body}Content-Length: 4\r\n\r\nnull", body.len());
                ensure_eq!(std::str::from_utf8(&buffer).unwrap_or("?"), want, "encoded message");
                let mut out = Vec::new();
                drain(&mut codec, &mut buffer, &mut out)?;
                ensure_eq!(out, vec![Expected::Message(value), Expected::Message(Value::Null)], "decoded messages");
                ensure!(buffer.is_empty(), "{} bytes are left", buffer.len());
                ctx.step(2);
                ctx.outcome("round trip");
                ctx.state(&body.len());
            }
            Case::Large(size, cut) => {
                let mut stream = Vec::new();
                let mut want = Vec::new();
                for n in 0..3 {
                    let body = format!("\"{}\"", ["x", "é", "\\n"][n].repeat(*size));
                    let extra = ["", "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n", ""][n];
                    stream.extend_from_slice(format!("{extra}Content-Length: {}\r\n\r\n{body}", body.len()).as_bytes());
                    want.push(Expected::Message(serde_json::from_str(&body).unwrap()));
                }
                let mut codec = LanguageServerCodec::<Value>::default();
                let mut buffer = BytesMut::new();
                let mut got = Vec::new();
                let mut cuts = vec![*cut, stream.len().saturating_sub(*cut), stream.len()];
                cuts.retain(|at| *at <= stream.len());
                cuts.sort();
                let mut start = 0;
                for end in cuts {
                    buffer.extend_from_slice(&stream[start..end]);
                    start = end;
                    drain(&mut codec, &mut buffer, &mut got)?;
                    ctx.step(1);
                    if end < stream.len() {
                        ensure!(got.len() < 3, "three messages of {size} characters are delivered after {end} of {} bytes", stream.len());
                    }
                }
                ensure!(got == want, "messages with bodies of {size} characters, cut at {cut} bytes from both ends, are not what was sent");
                ensure!(buffer.is_empty(), "{} bytes are left", buffer.len());
                ctx.state(&(size, cut));
                ctx.outcome("large");
            }
            Case::Noise(text) => {
                let mut codec = LanguageServerCodec::<Value>::default();
                let mut whole = Vec::new();
                let mut buffer = BytesMut::from(text.as_str());
                drain(&mut codec, &mut buffer, &mut whole)?;
                let messages = whole.iter().filter(|e| matches!(e, Expected::Message(_))).count();
                // A message needs a complete header and body
                ensure!(messages <= text.matches("\n").count() / 2, "{messages} messages in {text:?}");
                ctx.step(1);
                ctx.state(&(messages, whole.len(), buffer.len()));
                ctx.outcome(if messages > 0 { "noise with message" } else { "noise" });
            }
            Case::Stream(kinds, _) | Case::Bytes(kinds) => {
                let mut stream = Vec::new();
                let mut want = Vec::new();
                for kind in kinds {
                    let (text, expected) = frame(*kind);
                    stream.extend_from_slice(text.as_bytes());
                    want.push(expected);
                }
                let cuts: Vec<usize> = match case {
                    Case::Stream(_, cuts) => cuts.clone(),
                    _ => (1..stream.len()).collect(),
                };
                let mut codec = LanguageServerCodec::<Value>::default();
                let mut buffer = BytesMut::new();
                let mut got = Vec::new();
                let mut start = 0;
                let mut complete = 0; // messages whose last byte has been fed
                for end in cuts.iter().copied().chain([stream.len()]) {
                    buffer.extend_from_slice(&stream[start..end]);
                    start = end;
                    drain(&mut codec, &mut buffer, &mut got)?;
                    ctx.step(1);
                    ctx.state(&(kinds, end, got.len()));
                    // Nothing is delivered before it is complete, nor held back once it is
                    let mut offset = 0;
                    let mut available = 0;
                    for kind in kinds {
                        let (text, expected) = frame(*kind);
                        offset += text.len();
                        if offset <= end && matches!(expected, Expected::Message(_)) {
                            available += 1;
                        }
                    }
                    let delivered = got.iter().filter(|e| matches!(e, Expected::Message(_))).count();
                    ensure_eq!(delivered, available, "messages delivered after {end} of {} bytes of {:?}", stream.len(), String::from_utf8_lossy(&stream));
                    complete = available;
                }
                // Messages and errors in order; a header without length may be reported once
                // per read until the next message shows where to continue
                let mut got: Vec<Expected> = got.into_iter().filter(|e| *e != Expected::Nothing).collect();
                let mut want: Vec<Expected> = want.into_iter().filter(|e| *e != Expected::Nothing).collect();
                got.dedup_by(|a, b| *a == Expected::Error && *b == Expected::Error);
                want.dedup_by(|a, b| *a == Expected::Error && *b == Expected::Error);
                ensure_eq!(got, want, "decoded from {:?} cut at {cuts:?}", String::from_utf8_lossy(&stream));
                ctx.outcome(&format!("{complete} messages, {} errors", want.len() - complete));
            }
        }
        Ok(())
    }
}
