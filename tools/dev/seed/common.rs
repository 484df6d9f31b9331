#![allow(dead_code, unused_imports)]
pub use futures::{future, SinkExt, StreamExt};
pub use serde_json::{json, Value};
pub use std::sync::atomic::{AtomicUsize, Ordering};
pub use std::sync::Arc;
pub use std::time::Duration;
pub use tower::{Service, ServiceExt};
pub use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
pub use tower_lsp::lsp_types::*;
pub use tower_lsp::{Client, ClientSocket, LanguageServer, LspService, Server};

pub const T: Duration = Duration::from_secs(5);

pub fn req(id: impl Into<Id>, method: &'static str, params: Value) -> Request {
    Request::build(method).params(params).id(id).finish()
}
pub fn bare(id: impl Into<Id>, method: &'static str) -> Request {
    Request::build(method).id(id).finish()
}
pub fn note(method: &'static str, params: Value) -> Request {
    Request::build(method).params(params).finish()
}
pub fn init(id: i64) -> Request {
    req(id, "initialize", json!({"capabilities": {}}))
}
pub fn code(r: &Option<Response>) -> i64 {
    r.as_ref().and_then(|r| r.error()).map(|e| e.code.code()).unwrap_or(0)
}
pub fn frame(s: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", s.len(), s).into_bytes()
}
pub async fn within<F: std::future::Future>(f: F) -> F::Output {
    tokio::time::timeout(T, f).await.expect("timed out")
}
pub async fn settle() {
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
}
/// Splits framed output into its JSON bodies, insisting on exact framing.
pub fn unframe(mut b: &[u8]) -> Vec<Value> {
    let mut out = vec![];
    while !b.is_empty() {
        let s = b.windows(4).position(|w| w == b"\r\n\r\n").expect("no end of header");
        let head = std::str::from_utf8(&b[..s]).unwrap();
        let n: usize = head.strip_prefix("Content-Length: ").expect("bad header").parse().expect("bad length");
        assert!(b.len() >= s + 4 + n, "truncated body");
        out.push(serde_json::from_slice(&b[s + 4..s + 4 + n]).expect("bad body"));
        b = &b[s + 4 + n..];
    }
    out
}
