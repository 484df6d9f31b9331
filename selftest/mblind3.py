"""A third blind list: bugs and harmless edits around the transport, the loopback, the encoder, custom methods, locks and the interface."""
S="src/service.rs"; ST="src/service/state.rs"; L="src/lib.rs"; C="src/codec.rs"; T="src/transport.rs"; SO="src/service/client/socket.rs"; CP="src/service/client/pending.rs"; CL="src/service/client.rs"; PR="src/service/client/progress.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; J="src/jsonrpc.rs"; E="src/jsonrpc/error.rs"; R="src/jsonrpc/router.rs"; P="src/service/pending.rs"; LY="src/service/layers.rs"
A=["P%02d"%i for i in range(1,39)]
SEND="""                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }"""
RESP="""                        if let Err(err) = client_responses.send(res).await {
                            error!("{}", display_sources(&err));
                            break;
                        }"""
TASKS="""            .buffer_unordered(self.max_concurrency)
            .filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))"""
PRINT="""            .map(Ok)
            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
            .map(|_| ());"""
CALL="                        let fut = service.call(req).unwrap_or_else(|err| {"
ENC="""        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;"""
WAITV="""                entry.insert(vec![tx]);"""
M=[
# transport
("d-tr-feed","P16 P20",1,[(T,"client_responses.send(res).await","client_responses.feed(res).await")]),
("d-tr-print-ignores","P20 P21",1,[(T,PRINT,"""            .for_each({
                let out = std::rc::Rc::new(futures::lock::Mutex::new(Box::pin(framed_stdout)));
                move |msg: Message| {
                    let out = out.clone();
                    async move {
                        if let Err(e) = out.lock().await.send(msg).await {
                            error!("failed to encode message: {}", e);
                        }
                    }
                }
            });""")]),
("d-tr-print-feed","P20 P22 P01",1,[(T,PRINT,"""            .map(Ok)
            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)).buffer(MESSAGE_QUEUE_SIZE).with(|m| future::ready(match m { Message::Response(ref r) if r.id() == &Id::Null => Err(()), m => Ok(m) })))
            .map(|_| ());""")]),
("d-tr-limit-plus","P22",1,[(T,".buffer_unordered(self.max_concurrency)",".buffer_unordered(self.max_concurrency + 1)")]),
("d-tr-limit-queue","P22",1,[(T,".buffer_unordered(self.max_concurrency)",".buffer_unordered(self.max_concurrency.max(DEFAULT_MAX_CONCURRENCY))")]),
("d-tr-ends-at-none","P20 P11",1,[(T,TASKS,"""            .buffer_unordered(self.max_concurrency)
            .take_while(|res: &Option<Response>| future::ready(res.is_some()))
            .filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))""")]),
("d-tr-drop-null-responses","P20 P11 P26",1,[(T,TASKS,"""            .buffer_unordered(self.max_concurrency)
            .filter_map(future::ready)
            .filter(|res: &Response| future::ready(res.id() != &Id::Null))
            .map(|res| Ok(Message::Response(res)))""")]),
("d-tr-first-hundred","P20",1,[(T,TASKS,"""            .buffer_unordered(self.max_concurrency)
            .filter_map(future::ready)
            .take(u32::MAX as usize)
            .map(|res| Ok(Message::Response(res)))""")]),
("d-tr-exit-early","P20 P10",1,[(T,"                    Ok(Message::Request(req)) => {\n","                    Ok(Message::Request(req)) => {\n                        if req.method() == \"exit\" {\n                            break;\n                        }\n\n")]),
("d-tr-only-ok","P16",1,[(T,"                    Ok(Message::Response(res)) => {","                    Ok(Message::Response(res)) if res.is_error() && res.id() == &Id::Null => {}\n                    Ok(Message::Response(res)) if res.is_error() => drop(res),\n                    Ok(Message::Response(res)) => {")]),
("d-tr-return","P20",1,[(T,"""                            error!("{}", display_sources(err.into().as_ref()));
                            break;
                        }

                        let fut""","""                            error!("{}", display_sources(err.into().as_ref()));
                            return;
                        }

                        let fut""")]),
("d-tr-return2","P20",1,[(T,RESP,RESP.replace("break","return"))]),
("d-tr-sources-loop","P23",0,[(T,"""    if let Some(source) = error.source() {
        format!("{}: {}", error, display_sources(source))
    } else {
        error.to_string()
    }""","""    let mut message = error.to_string();
    let mut next = error.source();
    while let Some(source) = next {
        message.push_str(": ");
        message.push_str(&source.to_string());
        next = source.source();
    }
    message""")]),
("d-tr-sources-stuck","P23",0,[(T,"""    if let Some(source) = error.source() {
        format!("{}: {}", error, display_sources(source))
    } else {
        error.to_string()
    }""","""    let mut message = error.to_string();
    let next = error.source();
    while let Some(source) = next {
        message.push_str(": ");
        message.push_str(&source.to_string());
    }
    message""")]),
("d-tr-no-abort","P20",1,[(T,"            client_abort.abort();\n","            if false {\n                client_abort.abort();\n            }\n")]),
("d-tr-abort-first","P20",0,[(T,"            server_tasks_tx.disconnect();\n            responses_tx.disconnect();\n            client_abort.abort();\n","            client_abort.abort();\n            responses_tx.disconnect();\n            server_tasks_tx.disconnect();\n")]),
("d-tr-skip-big","P04 P20",1,[(T,"                let msg = match msg {","                if matches!(&msg, Ok(Err(ParseError::Body(e))) if e.is_eof()) {\n                    continue;\n                }\n\n                let msg = match msg {")]),
("d-tr-answer-once","P04",1,[(T,"                        let res = Response::from_error(Id::Null, err);\n","                        if std::mem::replace(&mut answered, true) {\n                            continue;\n                        }\n                        let res = Response::from_error(Id::Null, err);\n"),(T,"        let read_input = async {\n","        let mut answered = false;\n        let read_input = async {\n")]),
("d-tr-two-channels","P22",0,[(T,"mpsc::channel(MESSAGE_QUEUE_SIZE)","mpsc::channel(MESSAGE_QUEUE_SIZE / 2)")]),
("d-tr-call-inline","P22",1,[(T,SEND,"""                        if let Some(fut) = Some(fut) {
                            if let Some(res) = fut.await {
                                if responses_tx.send(Message::Response(res)).await.is_err() {
                                    break;
                                }
                            }
                        }
                        if server_tasks_tx.send(future::ready(None).left_future::<futures::future::Ready<Option<Response>>>()).await.is_err() {
                            break;
                        }""")]),
("d-tr-ready-skips","P20",1,[(T,"if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {","if let Some(Err(err)) = future::poll_fn(|cx| service.poll_ready(cx)).now_or_never() {")]),
# loopback
("d-so-close-exits","P10 P29",1,[(SO,"""    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(Ok(()))""","""    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.state.set(State::Exited);
        Poll::Ready(Ok(()))""")]),
("d-so-split-state","P29",1,[(SO,"        let state_ = state.clone();","        let state_ = Arc::new(ServerState::new());")]),
("d-so-split-pending","P16",1,[(SO,"            ResponseSink { pending, state },","            ResponseSink { pending: Arc::new(Pending::new()), state },"),(SO,"let ClientSocket { rx, pending, state }","let ClientSocket { rx, pending: _, state }")]),
("d-so-ready-pending","P29 P37 P20",1,[(SO,"""        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {""","""        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else if self.state.get() == State::Initializing {
            Poll::Pending
        } else {""")]),
("d-so-skip-after-shutdown","P16 P29",1,[(SO,"        self.pending.insert(item);\n        Ok(())","        if self.state.get() != State::ShutDown {\n            self.pending.insert(item);\n        }\n        Ok(())")]),
("d-so-start-exited","P29",0,[(SO,"        self.pending.insert(item);\n        Ok(())","        let Self { pending, .. } = &*self;\n        pending.insert(item);\n        Ok(())")]),
("d-so-poll-swap","P29",0,[(SO,"if self.state.get() == State::Exited || self.rx.is_terminated() {\n            Poll::Ready(None)","if self.rx.is_terminated() || matches!(self.state.get(), State::Exited) {\n            Poll::Ready(None)")]),
("d-so-shutdown-ends","P29 P17",1,[(SO,"if self.state.get() == State::Exited || self.rx.is_terminated() {\n            Poll::Ready(None)","if self.state.get() as u8 >= State::ShutDown as u8 || self.rx.is_terminated() {\n            Poll::Ready(None)")]),
# pending of the client
("d-cp-two-dropped","P16",1,[(CP,"                        1 => entry.remove().remove(0),","                        1 | 2 => entry.remove().remove(0),")]),
("d-cp-replaced","P16",1,[(CP,"                let txs = entry.get_mut();","                let txs = entry.get_mut();\n                txs.truncate(15);")]),
("d-cp-retry-next","P16",0,[(CP,"                    let tx = match entry.get().len() {\n                        1 => entry.remove().remove(0),\n                        _ => entry.get_mut().remove(0),\n                    };","                    let tx = entry.get_mut().remove(0);\n                    if entry.get().is_empty() {\n                        entry.remove();\n                    }")]),
("d-cp-swap","P16",1,[(CP,"_ => entry.get_mut().remove(0)","_ => entry.get_mut().swap_remove(0)")]),
("d-cp-lock","P24",1,[(CP,"                    if let Err(r) = tx.send(r) {","                    if self.0.contains_key(r.id()) {\n                        warn!(\"the id is still being waited for\");\n                    }\n\n                    if let Err(r) = tx.send(r) {"),(CP,"1 => entry.remove().remove(0),","usize::MAX => entry.remove().remove(0),")]),
("d-cp-abandoned","P16",1,[(CP,'warn!("received response to abandoned request ID: {}", r.id());','warn!("received response to abandoned request ID: {}", r.id());\n                        self.0.clear();')]),
# pending of the server
("d-p-cancel-nested","P24",1,[(P,"            handle.abort();\n            info!","            handle.abort();\n            self.0.remove(id);\n            info!")]),
("d-p-cancelall-nested","P24",1,[(P,"""        self.0.retain(|_, handle| {
            handle.abort();
            false
        });""","""        for entry in self.0.iter() {
            entry.value().abort();
            self.0.remove(entry.key());
        }""")]),
("d-p-cancelall-two","P14 P13 P24",0,[(P,"""        self.0.retain(|_, handle| {
            handle.abort();
            false
        });""","""        for entry in self.0.iter() {
            entry.value().abort();
        }

        self.0.clear();""")]),
("d-p-hold","P24",1,[(P,"                let abort_result = handler_fut.await;","                let held = requests.get(&id);\n                let abort_result = handler_fut.await;\n                drop(held);")]),
("d-p-cancelall-half","P14",1,[(P,"            handle.abort();\n            false","            if !handle.is_aborted() {\n                handle.abort();\n                return true;\n            }\n            false")]),
("d-p-cancelall-shrink","P14",0,[(P,"            handle.abort();\n            false\n        });","            handle.abort();\n            false\n        });\n        self.0.shrink_to_fit();")]),
("d-p-limit","P13 P11",1,[(P,"        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {","        if self.0.len() > 1024 {\n            return Either::Right(Either::Left(async { Ok(None) }));\n        }\n        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {"),(P,"            Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) })","            Either::Right(Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) }))")]),
# encoder
("d-enc-chars","P01",1,[(C,"msg.len(), msg)?;","msg.chars().count(), msg)?;")]),
("d-enc-newline","P01",1,[(C,"\\r\\n\\r\\n{}\", msg.len(), msg)?;","\\r\\n\\r\\n{}\\n\", msg.len(), msg)?;")]),
("d-enc-newline-counted","P01 P26",1,[(C,ENC,"        write!(writer, \"Content-Length: {:>8}\\r\\n\\r\\n{}\", msg.len(), msg)?;")]),
("d-enc-trim","P01 P35",1,[(C,"        let msg = serde_json::to_string(&item)?;","        let msg = serde_json::to_string(&item)?.replace(\"\\\\u0000\", \"\");")]),
("d-enc-clear","P01",1,[(C,"        let mut writer = dst.writer();","        if dst.len() > 1 << 20 {\n            dst.clear();\n        }\n        let mut writer = dst.writer();")]),
("d-enc-skip-empty","P01",1,[(C,"        trace!(\"-> {}\", msg);\n","        trace!(\"-> {}\", msg);\n        if msg.len() > u16::MAX as usize {\n            return Ok(());\n        }\n")]),
("d-enc-digits","P01",0,[(C,"    let mut num_digits = 0;\n\n    while n > 0 {","    let mut num_digits = 1;\n\n    while n >= 10 {")]),
("d-enc-extend","P01",0,[(C,ENC,"        write!(writer, \"Content-Length: {}\\r\\n\\r\\n\", msg.len())?;\n        writer.write_all(msg.as_bytes())?;")]),
("d-enc-put","P01",0,[(C,"        let mut writer = dst.writer();\n"+ENC+"\n        writer.flush()?;\n","        let header = format!(\"Content-Length: {}\\r\\n\\r\\n\", msg.len());\n        dst.extend_from_slice(header.as_bytes());\n        dst.extend_from_slice(msg.as_bytes());\n"),(C,"use std::io::{Error as IoError, Write};","use std::io::Error as IoError;"),(C,"use bytes::buf::BufMut;\n","")]),
("d-enc-late-header","P01",1,[(C,ENC,"        write!(writer, \"Content-Length: {}\\r\\n\\r\\n{}\", msg.len() as u32 as u16, msg)?;")]),
# custom methods
("d-cm-dollar","P28",1,[(S,"        self.inner.method(name, callback, layer);","        if !name.starts_with(\"$/\") {\n            self.inner.method(name, callback, layer);\n        }")]),
("d-cm-prefix","P28",1,[(S,"        self.inner.method(name, callback, layer);","        self.inner.method(name.trim_start_matches('/'), callback, layer);")]),
("d-cm-own-pending","P28 P14 P13",1,[(S,"layers::Normal::new(self.state.clone(), self.pending.clone());","layers::Normal::new(self.state.clone(), Arc::new(Pending::new()));")]),
("d-cm-own-state","P28 P07 P09",1,[(S,"layers::Normal::new(self.state.clone(), self.pending.clone());","layers::Normal::new(Arc::new(ServerState::new()), self.pending.clone());")]),
("d-cm-clone","P28",0,[(S,"        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());","        let (state, pending) = (Arc::clone(&self.state), Arc::clone(&self.pending));\n        let layer = layers::Normal::new(state, pending);")]),
("d-cm-late-build","P36 P07",1,[(S,"        (LspService { inner, state }, socket)","        let _ = state;\n        let state = Arc::new(ServerState::new());\n        (LspService { inner, state }, socket)")]),
# each service for itself
("d-static-state","P36",1,[(S,"        let state = Arc::new(ServerState::new());\n\n        let (client, socket)","        static STATE: std::sync::OnceLock<Arc<ServerState>> = std::sync::OnceLock::new();\n        let state = STATE.get_or_init(|| Arc::new(ServerState::new())).clone();\n        let (client, socket)")]),
("d-static-ids","P36",1,[(CL,"        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);","        static IDS: AtomicU32 = AtomicU32::new(0);\n        let num = IDS.fetch_add(1, Ordering::Relaxed);\n        let _ = &self.inner.request_id;")]),
# interface
("d-if-socket-local","P32 P38",1,[(SO,"    pub(super) rx: Receiver<Request>,","    pub(super) rx: Receiver<Request>,\n    pub(super) local: std::marker::PhantomData<*const ()>,"),(SO,"let ClientSocket { rx, pending, state }","let ClientSocket { rx, pending, state, .. }"),(CL,"ClientSocket { rx, pending, state }","ClientSocket { rx, pending, state, local: std::marker::PhantomData }")]),
("d-if-fn","P38",1,[(S,"F: FnOnce(Client) -> S,","F: Fn(Client) -> S,")]),
("d-if-static","P38",1,[(S,"F: FnOnce(Client) -> S,","F: FnOnce(Client) -> S + 'static,")]),
("d-if-max","P38",1,[(T,"pub fn concurrency_level(mut self, max: usize) -> Self {\n        self.max_concurrency = max;","pub fn concurrency_level(mut self, max: u16) -> Self {\n        self.max_concurrency = max.into();")]),
("d-if-debug","P38",0,[(S,"#[derive(Clone, Debug, Eq, PartialEq)]\npub struct ExitedError(());","#[derive(Clone, Debug, Eq, Hash, PartialEq)]\npub struct ExitedError(());")]),
("d-if-noclone","P38",1,[(S,"#[derive(Clone, Debug, Eq, PartialEq)]\npub struct ExitedError(());","#[derive(Debug, Eq, PartialEq)]\npub struct ExitedError(());")]),
]
