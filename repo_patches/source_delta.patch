From 1aafa057bdaa4940e734cbf6b26c835007d8df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 01/11] fix: import WorkspaceDiagnosticRefresh so that the
 crate compiles

`Client::workspace_diagnostic_refresh()` named the request type without
importing it, so building tower-lsp failed with E0425.
---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From bfb69614749f78c695d4e58f02d416f49794dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 02/11] fix: let serve() finish when the service or loopback
 has exited

Returning early from the input loop skipped closing the task queue, the
response channel and the client request stream, which are borrowed by the
async block. The other two futures then never completed and `serve()` hung
once a message arrived after `exit`.
---
 src/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..9af3525 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -131,7 +131,7 @@ where
                     Ok(Message::Request(req)) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -144,7 +144,7 @@ where
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Err(err) => {
-- 
2.43.0


From 05f75fccbdc29b785e3c2187807d16898bb15a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 03/11] fix: stop serving instead of panicking when the output
 is closed

When writing to `stdout` fails, the output future completes and drops the
receiving half of the response channel. Every later response then hit
`unreachable!()`, and the input loop unwrapped the resulting send errors.
---
 src/transport.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 9af3525..a8ff668 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -117,7 +117,7 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
+            .forward(responses_tx.clone().sink_map_err(|_| error!("failed to send response: output closed")))
             .map(|_| ());
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -139,7 +139,9 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        if server_tasks_tx.send(fut).await.is_err() {
+                            break;
+                        }
                     }
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -150,7 +152,9 @@ where
                     Err(err) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From b9e2476ff0c987a081e300c565c9cbb0d31bb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 04/11] fix: run the initialize handler at most once at a time

---
 src/service.rs        | 1 -
 src/service/layers.rs | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..4afef98 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -63,6 +63,7 @@ where
 
     fn call(&mut self, req: Request) -> Self::Future {
         if self.state.get() == State::Uninitialized {
+            self.state.set(State::Initializing);
             let state = self.state.clone();
             let fut = self.inner.call(req);
 
-- 
2.43.0


From f3f46c26700e37d818f3918a8ddc9faddd44182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 05/11] fix: keep the server exited when an initialize request
 finishes after exit

---
 src/service/layers.rs | 7 +++++--
 src/service/state.rs  | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/service/layers.rs b/src/service/layers.rs
index 4afef98..07e7d5a 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -70,9 +70,12 @@ where
             Box::pin(async move {
                 let response = fut.await?;
 
+                // Leave the state alone if `exit` was received in the meantime.
                 match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                    Some(res) if res.is_ok() => {
+                        state.transition(State::Initializing, State::Initialized)
+                    }
+                    _ => state.transition(State::Initializing, State::Uninitialized),
                 }
 
                 Ok(response)
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..75a5bce 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,13 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Moves to the state `to`, but only if the current state is `from`.
+    pub fn transition(&self, from: State, to: State) {
+        let _ =
+            self.0
+                .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From ad9b3b197888e69a63e5ab53eb655f672de03078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 06/11] fix: do not panic on a response to a request whose
 caller has gone away

---
 src/service/client/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..007383e 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,9 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!("received response to abandoned request ID: {}", r.id());
+                    }
                 }
             },
         }
-- 
2.43.0


From c237a339929d3e1f2da3777c374e8704501dda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:16 +0000
Subject: [PATCH 07/11] fix: keep a cancelled request ID reserved until the
 request is answered

---
 src/service/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..f7edcfc 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -57,7 +57,9 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        // The entry is removed by `execute()` once the future has resolved. Until then, the ID is
+        // still in use.
+        if let Some(handle) = self.0.get(id) {
             handle.abort();
             info!("successfully cancelled request with ID: {}", id);
         } else {
-- 
2.43.0


From c48d171e494e3a3a283c76acccb5a55ffbd0715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 08/11] fix: always consume input that cannot be decoded

---
 src/codec.rs | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..8985ad7 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -173,16 +173,16 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
             }
 
             let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
-
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
+            let result = match std::str::from_utf8(bytes) {
+                Ok("") => Ok(None),
+                Ok(message) => {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
                 }
+                Err(err) => Err(err.into()),
             };
 
             src.advance(content_len);
@@ -192,9 +192,13 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
         } else {
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    src.advance(garbage_len(src));
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -204,13 +208,20 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                     self.decode(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
+                    // Skip any garbage bytes by scanning ahead for another potential message.
+                    let next_message = |src: &[u8]| memmem::find(src, b"Content-Length");
                     match err {
-                        ParseError::MissingContentLength => {}
-                        _ => src.advance(headers_len),
+                        // These headers may contain the start of another message.
+                        ParseError::MissingContentLength => match next_message(src) {
+                            Some(pos) if pos > 0 => src.advance(pos),
+                            _ => src.advance(headers_len),
+                        },
+                        _ => {
+                            src.advance(headers_len);
+                            src.advance(next_message(src).unwrap_or_default());
+                        }
                     }
 
-                    // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
                     Err(err)
                 }
             }
@@ -218,6 +229,15 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Returns the number of bytes to skip, at least one, to reach what may be the next message.
+fn garbage_len(src: &[u8]) -> usize {
+    const HEADER: &[u8] = b"Content-Length";
+
+    (1..src.len())
+        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))
+        .unwrap_or(src.len())
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
-- 
2.43.0


From ef73fb10e17e8f233d8bb7c3cb5e50b56d70a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 09/11] fix: keep serving after a message that cannot be
 decoded

---
 src/codec.rs         | 20 ++++++++++++++++++++
 src/service/state.rs |  6 +++---
 src/transport.rs     | 33 +++++++++++++++++++--------------
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 8985ad7..e25894d 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -229,6 +229,26 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Decodes messages like [`LanguageServerCodec`], but yields undecodable messages as items too.
+///
+/// An error returned from a [`Decoder`] ends the stream of messages, which would stop the server.
+pub struct RecoveringDecoder<T>(LanguageServerCodec<T>);
+
+impl<T> Default for RecoveringDecoder<T> {
+    fn default() -> Self {
+        RecoveringDecoder(LanguageServerCodec::default())
+    }
+}
+
+impl<T: DeserializeOwned> Decoder for RecoveringDecoder<T> {
+    type Item = Result<T, ParseError>;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        Ok(self.0.decode(src).transpose())
+    }
+}
+
 /// Returns the number of bytes to skip, at least one, to reach what may be the next message.
 fn garbage_len(src: &[u8]) -> usize {
     const HEADER: &[u8] = b"Content-Length";
diff --git a/src/service/state.rs b/src/service/state.rs
index 75a5bce..98fa527 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -33,9 +33,9 @@ impl ServerState {
 
     /// Moves to the state `to`, but only if the current state is `from`.
     pub fn transition(&self, from: State, to: State) {
-        let _ =
-            self.0
-                .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);
+        let _ = self
+            .0
+            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);
     }
 
     pub fn get(&self) -> State {
diff --git a/src/transport.rs b/src/transport.rs
index a8ff668..4aea7a2 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -15,7 +15,7 @@ use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt,
 use tower::Service;
 use tracing::error;
 
-use crate::codec::{LanguageServerCodec, ParseError};
+use crate::codec::{LanguageServerCodec, ParseError, RecoveringDecoder};
 use crate::jsonrpc::{Error, Id, Message, Request, Response};
 use crate::service::{ClientSocket, RequestStream, ResponseSink};
 
@@ -110,14 +110,18 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let mut framed_stdin = FramedRead::new(self.stdin, RecoveringDecoder::default());
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| error!("failed to send response: output closed")))
+            .forward(
+                responses_tx
+                    .clone()
+                    .sink_map_err(|_| error!("failed to send response: output closed")),
+            )
             .map(|_| ());
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -127,6 +131,17 @@ where
 
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg.map_err(|err| {
+                        error!("failed to decode message: {}", err);
+                        to_jsonrpc_error(err)
+                    }),
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        Err(Error::parse_error())
+                    }
+                };
+
                 match msg {
                     Ok(Message::Request(req)) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
@@ -150,8 +165,7 @@ where
                         }
                     }
                     Err(err) => {
-                        error!("failed to decode message: {}", err);
-                        let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
+                        let res = Response::from_error(Id::Null, err);
                         if responses_tx.send(Message::Response(res)).await.is_err() {
                             break;
                         }
@@ -176,7 +190,6 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
 fn to_jsonrpc_error(err: ParseError) -> Error {
     match err {
         ParseError::Body(err) if err.is_data() => Error::invalid_request(),
@@ -184,14 +197,6 @@ fn to_jsonrpc_error(err: ParseError) -> Error {
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use std::task::{Context, Poll};
-- 
2.43.0


From dac7df182777040f52c1319ed535d75fc0ada8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 10/11] fix: do not hold back the message that follows an empty
 one

---
 src/codec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index e25894d..6ea466f 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -245,7 +245,14 @@ impl<T: DeserializeOwned> Decoder for RecoveringDecoder<T> {
     type Error = ParseError;
 
     fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-        Ok(self.0.decode(src).transpose())
+        loop {
+            let len = src.len();
+            match self.0.decode(src) {
+                // An empty message was skipped. There may be another message behind it already.
+                Ok(None) if src.len() < len => continue,
+                result => return Ok(result.transpose()),
+            }
+        }
     }
 }
 
-- 
2.43.0


From f6dbfa4ce346f7c502e9ca7761c20e4d62aea7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:35 +0000
Subject: [PATCH 11/11] fix: answer unknown `$/` requests instead of dropping
 them

---
 src/service.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 3c99a62..2234080 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,12 +10,11 @@ use std::sync::Arc;
 use std::task::{Context, Poll};
 
 use futures::future::{self, BoxFuture, FutureExt};
-use serde_json::Value;
 use tower::Service;
 
-use crate::jsonrpc::{
-    Error, ErrorCode, FromParams, IntoResponse, Method, Request, Response, Router,
-};
+#[cfg(test)]
+use crate::jsonrpc::Error;
+use crate::jsonrpc::{FromParams, IntoResponse, Method, Request, Response, Router};
 use crate::LanguageServer;
 
 pub(crate) mod layers;
@@ -117,20 +116,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
-        let fut = self.inner.call(req);
-
-        Box::pin(async move {
-            let response = fut.await?;
-
-            match response.as_ref().and_then(|res| res.error()) {
-                Some(Error {
-                    code: ErrorCode::MethodNotFound,
-                    data: Some(Value::String(m)),
-                    ..
-                }) if m.starts_with("$/") => Ok(None),
-                _ => Ok(response),
-            }
-        })
+        self.inner.call(req)
     }
 }
 
-- 
2.43.0

