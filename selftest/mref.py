# Edits that keep the behaviour, over the client, the transport and the message types. None may raise an alarm.
A="P01 P02 P04 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P29 P30 P31"
CP="src/service/client/pending.rs"
CS="src/service/client/socket.rs"
CL="src/service/client.rs"
TR="src/transport.rs"
JR="src/jsonrpc.rs"
RQ="src/jsonrpc/request.rs"
RS="src/jsonrpc/response.rs"
ER="src/jsonrpc/error.rs"
CO="src/codec.rs"
INS='''        match r.id() {
            Id::Null => warn!("received response with request ID of `null`, ignoring"),
            id => match self.0.entry(id.clone()) {
                Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),
                Entry::Occupied(mut entry) => {
                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };

                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }
                }
            },
        }
'''
WAIT='''        match self.0.entry(id) {
            Entry::Vacant(entry) => {
                entry.insert(vec![tx]);
            }
            Entry::Occupied(mut entry) => {
                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);
            }
        }
'''
SRU='''        let response = match self.clone().call(request).await {
            Ok(Some(response)) => response,
            Ok(None) | Err(_) => return Err(Error::internal_error()),
        };

        let (_, result) = response.into_parts();
        result.and_then(|v| {
            serde_json::from_value(v).map_err(|e| Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            })
        })
'''
CALL='''        Box::pin(async move {
            if tx.send(req).await.is_err() {
                return Err(ExitedError(()));
            }

            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),
                None => Ok(None),
            }
        })
'''
POLLNEXT='''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {
            self.rx.poll_next_unpin(cx)
        }
'''
SINKREADY='''        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
'''
SENDREQ='''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_request_unchecked::<R>(params).await
        } else {
            let id = self.inner.request_id.load(Ordering::SeqCst) as i64 + 1;
            let msg = Request::from_request::<R>(id.into(), params);
            trace!("server not initialized, supressing message: {}", msg);
            Err(jsonrpc::not_initialized_error())
        }
'''
SENDNOT='''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked::<N>(params).await;
        } else {
            let msg = Request::from_notification::<N>(params);
            trace!("server not initialized, supressing message: {}", msg);
        }
'''
NUM='''        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);
        Id::Number(num as i64)
'''
READ='''                match msg {
                    Ok(Message::Request(req)) => {
                        if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                            error!("{}", display_sources(err.into().as_ref()));
                            break;
                        }

                        let fut = service.call(req).unwrap_or_else(|err| {
                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });

                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }
                    }
'''
DECERR='''                let msg = match msg {
                    Ok(msg) => msg.map_err(|err| {
                        error!("failed to decode message: {}", err);
                        to_jsonrpc_error(err)
                    }),
                    Err(err) => {
                        error!("failed to read message: {}", err);
                        Err(Error::parse_error())
                    }
                };
'''
M=[
# ------------------------------------------------------------------ the table of pending requests
("p-insert-early-return",A,0,[(CP,INS,'''        if let Id::Null = r.id() {
            warn!("received response with request ID of `null`, ignoring");
            return;
        }

        let id = r.id().clone();
        if let Entry::Occupied(mut entry) = self.0.entry(id.clone()) {
            let tx = if entry.get().len() == 1 {
                entry.remove().remove(0)
            } else {
                entry.get_mut().remove(0)
            };

            if let Err(r) = tx.send(r) {
                warn!("received response to abandoned request ID: {}", r.id());
            }
        } else {
            warn!("received response with unknown request ID: {}", id);
        }
''')]),
("p-insert-take-helper",A,0,[(CP,INS,'''        let id = match r.id() {
            Id::Null => return warn!("received response with request ID of `null`, ignoring"),
            id => id.clone(),
        };

        match self.take(&id) {
            None => warn!("received response with unknown request ID: {}", id),
            Some(tx) => {
                let _ = tx
                    .send(r)
                    .map_err(|r| warn!("received response to abandoned request ID: {}", r.id()));
            }
        }
'''),(CP,'''    /// Marks the given request ID as pending and''','''    fn take(&self, id: &Id) -> Option<oneshot::Sender<Response>> {
        match self.0.entry(id.clone()) {
            Entry::Vacant(_) => None,
            Entry::Occupied(mut entry) => Some(match entry.get().len() {
                1 => entry.remove().remove(0),
                _ => entry.get_mut().remove(0),
            }),
        }
    }

    /// Marks the given request ID as pending and''')]),
("p-insert-drain",A,0,[(CP,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let tx = entry.get_mut().remove(0);
                    if entry.get().is_empty() {
                        entry.remove();
                    }
''')]),
("p-insert-match-send",A,0,[(CP,'''                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }
''','''                    match tx.send(r) {
                        Ok(()) => {}
                        Err(r) => warn!("received response to abandoned request ID: {}", r.id()),
                    }
''')]),
("p-wait-or-default",A,0,[(CP,WAIT,'''        self.0.entry(id).or_default().push(tx);
''')]),
("p-wait-or-insert-with",A,0,[(CP,WAIT,'''        self.0.entry(id).or_insert_with(Vec::new).push(tx);
''')]),
("p-wait-noreserve",A,0,[(CP,'''                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);
''','''                entry.get_mut().push(tx);
''')]),
("p-wait-match-recv",A,0,[(CP,'''        async { rx.await.expect("sender already dropped") }''','''        async move {
            match rx.await {
                Ok(response) => response,
                Err(_) => unreachable!("sender already dropped"),
            }
        }''')]),
("p-wait-new-vec",A,0,[(CP,'''                entry.insert(vec![tx]);''','''                let mut waiters = Vec::with_capacity(1);
                waiters.push(tx);
                entry.insert(waiters);''')]),
("p-named-field",A,0,[(CP,'''pub struct Pending(DashMap<Id, Vec<oneshot::Sender<Response>>>);''','''pub struct Pending {
    waiters: DashMap<Id, Vec<oneshot::Sender<Response>>>,
}'''),(CP,"        Pending(DashMap::new())","        Pending {\n            waiters: DashMap::new(),\n        }"),(CP,"self.0.entry","self.waiters.entry"),(CP,'''            .0
            .iter()''','''            .waiters
            .iter()''')]),
("p-vecdeque",A,0,[(CP,'''pub struct Pending(DashMap<Id, Vec<oneshot::Sender<Response>>>);''','''pub struct Pending(DashMap<Id, VecDeque<oneshot::Sender<Response>>>);'''),(CP,"use std::fmt::","use std::collections::VecDeque;\nuse std::fmt::"),
  (CP,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let tx = match entry.get().len() {
                        1 => entry.remove().pop_front(),
                        _ => entry.get_mut().pop_front(),
                    };
                    let Some(tx) = tx else { return };
'''),(CP,"vec![tx]","VecDeque::from([tx])"),(CP,"txs.push(tx)","txs.push_back(tx)")]),
# ------------------------------------------------------------------ the socket
("s-poll-match",A,0,[(CS,POLLNEXT,'''        match self.state.get() {
            State::Exited => Poll::Ready(None),
            _ if self.rx.is_terminated() => Poll::Ready(None),
            _ => self.rx.poll_next_unpin(cx),
        }
''')]),
("s-poll-early",A,0,[(CS,POLLNEXT,'''        let done = self.rx.is_terminated() || matches!(self.state.get(), State::Exited);
        if done {
            return Poll::Ready(None);
        }
        Pin::new(&mut self.rx).poll_next(cx)
''')]),
("s-poll-helper",A,0,[(CS,POLLNEXT,'''        poll_requests(&self.state.clone(), &mut self.rx, cx)
'''),(CS,'''/// Yields a stream of pending server-to-client requests.
impl Stream for ClientSocket {''','''fn poll_requests(
    state: &ServerState,
    rx: &mut Receiver<Request>,
    cx: &mut Context<'_>,
) -> Poll<Option<Request>> {
    if state.get() == State::Exited || rx.is_terminated() {
        Poll::Ready(None)
    } else {
        rx.poll_next_unpin(cx)
    }
}

/// Yields a stream of pending server-to-client requests.
impl Stream for ClientSocket {''')]),
("s-sink-match",A,0,[(CS,SINKREADY,'''        Poll::Ready(match self.state.get() {
            State::Exited => Err(ExitedError(())),
            _ => Ok(()),
        })
''')]),
("s-sink-ne",A,0,[(CS,SINKREADY,'''        if self.state.get() != State::Exited {
            return Poll::Ready(Ok(()));
        }
        Poll::Ready(Err(ExitedError(())))
''')]),
("s-split-clone",A,0,[(CS,'''        let ClientSocket { rx, pending, state } = self;
        let state_ = state.clone();

        (
            RequestStream { rx, state: state_ },
            ResponseSink { pending, state },
        )
''','''        let requests = RequestStream {
            rx: self.rx,
            state: Arc::clone(&self.state),
        };
        let responses = ResponseSink {
            pending: self.pending,
            state: self.state,
        };
        (requests, responses)
''')]),
# ------------------------------------------------------------------ the client
("c-call-match-send",A,0,[(CL,CALL,'''        Box::pin(async move {
            match tx.send(req).await {
                Err(_) => Err(ExitedError(())),
                Ok(()) => match response_waiter {
                    Some(fut) => Ok(Some(fut.await)),
                    None => Ok(None),
                },
            }
        })
''')]),
("c-call-question",A,0,[(CL,CALL,'''        Box::pin(async move {
            tx.send(req).await.map_err(|_| ExitedError(()))?;

            if let Some(fut) = response_waiter {
                let response = fut.await;
                Ok(Some(response))
            } else {
                Ok(None)
            }
        })
''')]),
("c-call-waiter-match",A,0,[(CL,'''        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));
''','''        let response_waiter = match req.id() {
            Some(id) => Some(self.inner.pending.wait(id.clone())),
            None => None,
        };
''')]),
("c-call-order",A,0,[(CL,'''        let mut tx = self.inner.tx.clone();
        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));
''','''        let inner = &self.inner;
        let response_waiter = req.id().map(|id| inner.pending.wait(id.to_owned()));
        let mut tx = inner.tx.clone();
''')]),
("c-call-boxed",A,0,[(CL,CALL,'''        async move {
            if let Err(_) = tx.send(req).await {
                return Err(ExitedError(()));
            }

            let response = match response_waiter {
                Some(fut) => Some(fut.await),
                None => None,
            };

            Ok(response)
        }
        .boxed()
'''),(CL,"use futures::future::BoxFuture;","use futures::future::{BoxFuture, FutureExt};")]),
("c-sendreq-match",A,0,[(CL,SENDREQ,'''        match self.inner.state.get() {
            State::Initialized | State::ShutDown => {
                self.send_request_unchecked::<R>(params).await
            }
            State::Uninitialized | State::Initializing | State::Exited => {
                let id = self.inner.request_id.load(Ordering::SeqCst) as i64 + 1;
                let msg = Request::from_request::<R>(id.into(), params);
                trace!("server not initialized, supressing message: {}", msg);
                Err(jsonrpc::not_initialized_error())
            }
        }
''')]),
("c-sendreq-helper",A,0,[(CL,SENDREQ,'''        if !self.can_send() {
            let id = self.inner.request_id.load(Ordering::SeqCst) as i64 + 1;
            let msg = Request::from_request::<R>(id.into(), params);
            trace!("server not initialized, supressing message: {}", msg);
            return Err(jsonrpc::not_initialized_error());
        }

        self.send_request_unchecked::<R>(params).await
'''),(CL,SENDNOT,'''        if !self.can_send() {
            let msg = Request::from_notification::<N>(params);
            trace!("server not initialized, supressing message: {}", msg);
            return;
        }

        self.send_notification_unchecked::<N>(params).await;
'''),(CL,'''    async fn send_notification_unchecked<N>''','''    fn can_send(&self) -> bool {
        matches!(
            self.inner.state.get(),
            State::Initialized | State::ShutDown
        )
    }

    async fn send_notification_unchecked<N>''')]),
("c-sendreq-nolog",A,0,[(CL,'''            let id = self.inner.request_id.load(Ordering::SeqCst) as i64 + 1;
            let msg = Request::from_request::<R>(id.into(), params);
            trace!("server not initialized, supressing message: {}", msg);
''','''            trace!("server not initialized, supressing message: {}", R::METHOD);
''')]),
("c-sru-inspect",A,0,[(CL,SRU,'''        let response = self.clone().call(request).await;
        let Ok(Some(response)) = response else {
            return Err(Error::internal_error());
        };

        let value = response.into_parts().1?;
        match serde_json::from_value(value) {
            Ok(result) => Ok(result),
            Err(e) => Err(Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            }),
        }
''')]),
("c-sru-okor",A,0,[(CL,SRU,'''        let response = self
            .clone()
            .call(request)
            .await
            .ok()
            .flatten()
            .ok_or_else(Error::internal_error)?;

        match response.into_parts() {
            (_, Ok(v)) => serde_json::from_value(v).map_err(parse_failure),
            (_, Err(e)) => Err(e),
        }
'''),(CL,'''impl Debug for Client {''','''fn parse_failure(e: serde_json::Error) -> Error {
    let mut error = Error::parse_error();
    error.message = e.to_string().into();
    error
}

impl Debug for Client {''')]),
("c-notif-match",A,0,[(CL,'''        let request = Request::from_notification::<N>(params);
        if self.clone().call(request).await.is_err() {
            error!("failed to send notification");
        }
''','''        let mut client = self.clone();
        match client.call(Request::from_notification::<N>(params)).await {
            Ok(_) => {}
            Err(_) => error!("failed to send notification"),
        }
''')]),
("c-id-from",A,0,[(CL,NUM,'''        let counter = &self.inner.request_id;
        Id::from(i64::from(counter.fetch_add(1, Ordering::Relaxed)))
''')]),
("c-id-seqcst",A,0,[(CL,NUM,'''        let num = self.inner.request_id.fetch_add(1, Ordering::SeqCst);
        (num as i64).into()
''')]),
("c-telemetry-if",A,0,[(CL,'''            Ok(mut value) => {
                if !value.is_null() && !value.is_array() && !value.is_object() {
                    value = Value::Array(vec![value]);
                }
                self.send_notification_unchecked::<TelemetryEvent>(value)
                    .await;
            }
''','''            Ok(value) => {
                let value = match value {
                    Value::Null | Value::Array(_) | Value::Object(_) => value,
                    other => Value::Array(vec![other]),
                };
                self.send_notification_unchecked::<TelemetryEvent>(value)
                    .await;
            }
''')]),
("c-telemetry-early",A,0,[(CL,'''        match serde_json::to_value(data) {
            Err(e) => error!("invalid JSON in `telemetry/event` notification: {}", e),
            Ok(mut value) => {
                if !value.is_null() && !value.is_array() && !value.is_object() {
                    value = Value::Array(vec![value]);
                }
                self.send_notification_unchecked::<TelemetryEvent>(value)
                    .await;
            }
        }
''','''        let value = match serde_json::to_value(data) {
            Ok(value) => value,
            Err(e) => {
                error!("invalid JSON in `telemetry/event` notification: {}", e);
                return;
            }
        };

        let structured = value.is_null() || value.is_array() || value.is_object();
        let params = if structured {
            value
        } else {
            Value::Array(vec![value])
        };
        self.send_notification_unchecked::<TelemetryEvent>(params)
            .await;
''')]),
("c-showdoc-map",A,0,[(CL,'''        let response = self.send_request::<ShowDocument>(params).await?;
        Ok(response.success)
''','''        self.send_request::<ShowDocument>(params)
            .await
            .map(|response| response.success)
''')]),
("c-log-helper",A,0,[(CL,'''        self.send_notification_unchecked::<LogMessage>(LogMessageParams {
            typ,
            message: message.to_string(),
        })
        .await;
''','''        let params = LogMessageParams {
            typ,
            message: format!("{}", message),
        };
        self.send_notification_unchecked::<LogMessage>(params).await;
''')]),
("c-diag-struct",A,0,[(CL,'''        self.send_notification::<PublishDiagnostics>(PublishDiagnosticsParams::new(
            uri, diags, version,
        ))
        .await;
''','''        let params = PublishDiagnosticsParams {
            uri,
            diagnostics: diags,
            version,
        };
        self.send_notification::<PublishDiagnostics>(params).await;
''')]),
("c-new-order",A,0,[(CL,'''        let (tx, rx) = mpsc::channel(1);
        let pending = Arc::new(Pending::new());

        let client = Client {
            inner: Arc::new(ClientInner {
                tx,
                request_id: AtomicU32::new(0),
                pending: pending.clone(),
                state: state.clone(),
            }),
        };

        (client, ClientSocket { rx, pending, state })
''','''        let pending = Arc::new(Pending::new());
        let (tx, rx) = mpsc::channel(1);
        let socket = ClientSocket {
            rx,
            pending: Arc::clone(&pending),
            state: Arc::clone(&state),
        };
        let inner = Arc::new(ClientInner {
            tx,
            request_id: Default::default(),
            pending,
            state,
        });

        (Client { inner }, socket)
''')]),
("c-close-mut",A,0,[(CL,'''        self.inner.tx.clone().close_channel();
''','''        let mut tx = self.inner.tx.clone();
        tx.close_channel();
''')]),
("c-ready-match",A,0,[(CL,'''        self.inner
            .tx
            .clone()
            .poll_ready(cx)
            .map_err(|_| ExitedError(()))
''','''        let mut tx = self.inner.tx.clone();
        match tx.poll_ready(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => Poll::Ready(Err(ExitedError(()))),
        }
''')]),
# ------------------------------------------------------------------ the transport
("t-call-match",A,0,[(TR,READ,READ.replace('''                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }
''','''                        match server_tasks_tx.send(fut).await {
                            Ok(()) => continue,
                            Err(_) => break,
                        }
'''))]),
("t-call-map",A,0,[(TR,'''                        let fut = service.call(req).unwrap_or_else(|err| {
                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });
''','''                        let fut = service.call(req).map(|res| match res {
                            Ok(response) => response,
                            Err(err) => {
                                error!("{}", display_sources(err.into().as_ref()));
                                None
                            }
                        });
''')]),
("t-ready-result",A,0,[(TR,'''                        if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                            error!("{}", display_sources(err.into().as_ref()));
                            break;
                        }
''','''                        let ready = future::poll_fn(|cx| service.poll_ready(cx)).await;
                        match ready {
                            Ok(()) => {}
                            Err(err) => {
                                error!("{}", display_sources(err.into().as_ref()));
                                break;
                            }
                        }
''')]),
("t-loop",A,0,[(TR,'''            while let Some(msg) = framed_stdin.next().await {
''','''            loop {
                let msg = match framed_stdin.next().await {
                    Some(msg) => msg,
                    None => break,
                };

''')]),
("t-decerr-or",A,0,[(TR,DECERR,'''                let msg = match msg {
                    Ok(Ok(msg)) => Ok(msg),
                    Ok(Err(err)) => {
                        error!("failed to decode message: {}", err);
                        Err(to_jsonrpc_error(err))
                    }
                    Err(err) => {
                        error!("failed to read message: {}", err);
                        Err(Error::parse_error())
                    }
                };
''')]),
("t-errclass-if",A,0,[(TR,'''    match err {
        ParseError::Body(err) if err.is_data() => Error::invalid_request(),
        _ => Error::parse_error(),
    }
''','''    if matches!(&err, ParseError::Body(err) if err.is_data()) {
        Error::invalid_request()
    } else {
        Error::parse_error()
    }
''')]),
("t-sources-loop",A,0,[(TR,'''    if let Some(source) = error.source() {
        format!("{}: {}", error, display_sources(source))
    } else {
        error.to_string()
    }
''','''    match error.source() {
        Some(source) => format!("{}: {}", error, display_sources(source)),
        None => error.to_string(),
    }
''')]),
("t-close-order",A,0,[(TR,'''            server_tasks_tx.disconnect();
            responses_tx.disconnect();
            client_abort.abort();
''','''            client_abort.abort();
            responses_tx.disconnect();
            server_tasks_tx.disconnect();
''')]),
("t-close-channel",A,0,[(TR,'''            server_tasks_tx.disconnect();
            responses_tx.disconnect();
''','''            server_tasks_tx.close_channel();
            responses_tx.disconnect();
''')]),
("t-join3",A,0,[(TR,'''        join!(print_output, read_input, process_server_tasks);''','''        future::join3(print_output, read_input, process_server_tasks).await;''')]),
("t-join-order",A,0,[(TR,'''        join!(print_output, read_input, process_server_tasks);''','''        join!(read_input, process_server_tasks, print_output);''')]),
("t-filter-map-closure",A,0,[(TR,'''            .filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))
''','''            .filter_map(|res: Option<Response>| future::ready(res.map(|res| Ok(Message::Response(res)))))
''')]),
("t-map-ok",A,0,[(TR,'''        let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
            .map(Ok)
''','''        let client_requests = client_requests.map(Message::Request);
        let outgoing = stream::select(responses_rx, client_requests);
        let print_output = outgoing
            .map(|msg| Ok(msg))
''')]),
("t-select-order",A,0,[(TR,'''stream::select(responses_rx, client_requests.map(Message::Request))''','''stream::select(client_requests.map(Message::Request), responses_rx)''')]),
("t-res-inline",A,0,[(TR,'''                        let res = Response::from_error(Id::Null, err);
                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }
''','''                        let reply = Message::Response(Response::from_parts(Id::Null, Err(err)));
                        if let Err(_) = responses_tx.send(reply).await {
                            break;
                        }
''')]),
("t-concurrency-struct",A,0,[(TR,'''    pub fn concurrency_level(mut self, max: usize) -> Self {
        self.max_concurrency = max;
        self
    }
''','''    pub fn concurrency_level(self, max: usize) -> Self {
        Server {
            max_concurrency: max,
            ..self
        }
    }
''')]),
("t-resp-match",A,0,[(TR,'''                        if let Err(err) = client_responses.send(res).await {
                            error!("{}", display_sources(&err));
                            break;
                        }
''','''                        match client_responses.send(res).await {
                            Ok(()) => (),
                            Err(err) => {
                                error!("{}", display_sources(&err));
                                break;
                            }
                        }
''')]),
# ------------------------------------------------------------------ the messages
("j-id-display",A,0,[(JR,'''            Id::Number(id) => Display::fmt(id, f),
            Id::String(id) => Debug::fmt(id, f),
            Id::Null => f.write_str("null"),
''','''            Id::Number(id) => write!(f, "{}", id),
            Id::String(id) => write!(f, "{:?}", id),
            Id::Null => write!(f, "null"),
''')]),
("j-id-default",A,0,[(JR,'''impl Default for Id {
    fn default() -> Self {
        Id::Null
    }
}
''','''impl Default for Id {
    fn default() -> Self {
        Self::Null
    }
}
''')]),
("j-id-from",A,0,[(JR,'''            NumberOrString::Number(num) => Id::Number(num as i64),
            NumberOrString::String(s) => Id::String(s),
''','''            NumberOrString::Number(num) => i64::from(num).into(),
            NumberOrString::String(s) => s.into(),
''')]),
("j-version-cow",A,0,[(JR,'''        match ver.as_ref() {
            "2.0" => Ok(Version),
            _ => Err(de::Error::custom("expected JSON-RPC version \\"2.0\\"")),
        }
''','''        if &*ver == "2.0" {
            Ok(Version)
        } else {
            Err(de::Error::custom("expected JSON-RPC version \\"2.0\\""))
        }
''')]),
("j-version-const",A,0,[(JR,'''        match ver.as_ref() {
            "2.0" => Ok(Version),
''','''        const SUPPORTED: &str = "2.0";
        match ver.as_ref() {
            SUPPORTED => Ok(Version),
''')]),
("q-from-request-builder",A,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: R::METHOD.into(),
            params: Some(serde_json::to_value(params).unwrap()),
            id: Some(id),
        }
''','''        let params = serde_json::to_value(params).unwrap();
        Request::build(R::METHOD).params(params).id(id).finish()
''')]),
("q-from-notif-builder",A,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: N::METHOD.into(),
            params: Some(serde_json::to_value(params).unwrap()),
            id: None,
        }
''','''        Request::build(N::METHOD)
            .params(serde_json::to_value(params).unwrap())
            .finish()
''')]),
("q-deser-some",A,0,[(RQ,'''    T::deserialize(deserializer).map(Some)
''','''    let value = T::deserialize(deserializer)?;
    Ok(Some(value))
''')]),
("q-finish-destructure",A,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: self.method,
            params: self.params,
            id: self.id,
        }
''','''        let RequestBuilder { method, params, id } = self;
        Request {
            jsonrpc: Version,
            method,
            params,
            id,
        }
''')]),
("q-into-parts",A,0,[(RQ,'''        (self.method, self.id, self.params)
''','''        let Request {
            method, params, id, ..
        } = self;
        (method, id, params)
''')]),
("q-builder-struct",A,0,[(RQ,'''    pub fn id<I: Into<Id>>(mut self, id: I) -> Self {
        self.id = Some(id.into());
        self
    }
''','''    pub fn id<I: Into<Id>>(self, id: I) -> Self {
        let id = Some(id.into());
        RequestBuilder { id, ..self }
    }
''')]),
("q-display-to-string",A,0,[(RQ,'''        let mut w = WriterFormatter { inner: f };
        serde_json::to_writer(&mut w, self).map_err(|_| fmt::Error)
''','''        let w = WriterFormatter { inner: f };
        match serde_json::to_writer(w, self) {
            Ok(()) => Ok(()),
            Err(_) => Err(fmt::Error),
        }
''')]),
("r-parts-map",A,0,[(RS,'''        match self.kind {
            Kind::Ok { result } => (self.id, Ok(result)),
            Kind::Err { error } => (self.id, Err(error)),
        }
''','''        let Response { kind, id, .. } = self;
        let body = match kind {
            Kind::Ok { result } => Ok(result),
            Kind::Err { error } => Err(error),
        };
        (id, body)
''')]),
("r-from-parts-kind",A,0,[(RS,'''        match body {
            Ok(result) => Response::from_ok(id, result),
            Err(error) => Response::from_error(id, error),
        }
''','''        let kind = match body {
            Ok(result) => Kind::Ok { result },
            Err(error) => Kind::Err { error },
        };
        Response {
            jsonrpc: Version,
            kind,
            id,
        }
''')]),
("r-result-iflet",A,0,[(RS,'''        match &self.kind {
            Kind::Ok { result } => Some(result),
            _ => None,
        }
''','''        if let Kind::Ok { ref result } = self.kind {
            Some(result)
        } else {
            None
        }
''')]),
("r-iserror",A,0,[(RS,'''        !self.is_ok()
''','''        matches!(self.kind, Kind::Err { .. })
''')]),
("e-new-struct",A,0,[(ER,'''        Error {
            code,
            message: Cow::Borrowed(code.description()),
            data: None,
        }
''','''        let message = Cow::Borrowed(code.description());
        Error {
            code,
            message,
            data: None,
        }
''')]),
("e-invalid-params",A,0,[(ER,'''        Error {
            code: ErrorCode::InvalidParams,
            message: message.into(),
            data: None,
        }
''','''        let mut error = Error::new(ErrorCode::InvalidParams);
        error.message = message.into();
        error
''')]),
("e-invalid-params-update",A,0,[(ER,'''        Error {
            code: ErrorCode::InvalidParams,
            message: message.into(),
            data: None,
        }
''','''        Error {
            message: message.into(),
            ..Error::new(ErrorCode::InvalidParams)
        }
''')]),
("e-notinit-const",A,0,[(ER,'''pub(crate) const fn not_initialized_error() -> Error {
    Error {
        code: ErrorCode::ServerError(-32002),
''','''const NOT_INITIALIZED: ErrorCode = ErrorCode::ServerError(-32002);

pub(crate) const fn not_initialized_error() -> Error {
    Error {
        code: NOT_INITIALIZED,
''')]),
("e-code-self",A,0,[(ER,'''            ErrorCode::ServerError(code) => code,
        }
    }

    /''','''            ErrorCode::ServerError(other) => other,
        }
    }

    /''')]),
("e-from-consts",A,0,[(ER,'''        match code {
            -32700 => ErrorCode::ParseError,
            -32600 => ErrorCode::InvalidRequest,
            -32601 => ErrorCode::MethodNotFound,
            -32602 => ErrorCode::InvalidParams,
            -32603 => ErrorCode::InternalError,
            -32800 => ErrorCode::RequestCancelled,
            -32801 => ErrorCode::ContentModified,
            code => ErrorCode::ServerError(code),
        }
''','''        const PARSE_ERROR: i64 = ErrorCode::ParseError.code();
        const INVALID_REQUEST: i64 = ErrorCode::InvalidRequest.code();
        match code {
            PARSE_ERROR => ErrorCode::ParseError,
            INVALID_REQUEST => ErrorCode::InvalidRequest,
            -32603 => ErrorCode::InternalError,
            -32602 => ErrorCode::InvalidParams,
            -32601 => ErrorCode::MethodNotFound,
            -32801 => ErrorCode::ContentModified,
            -32800 => ErrorCode::RequestCancelled,
            _ => ErrorCode::ServerError(code),
        }
''')]),
("e-display",A,0,[(ER,'''        Display::fmt(&self.code(), f)
''','''        write!(f, "{}", self.code())
''')]),
# ------------------------------------------------------------------ the codec
("k-encode-vec",A,0,[(CO,'''        let msg = serde_json::to_string(&item)?;
        trace!("-> {}", msg);
''','''        let msg = match serde_json::to_string(&item) {
            Ok(msg) => msg,
            Err(err) => return Err(err.into()),
        };
        trace!("-> {}", msg);
''')]),
("k-encode-helper",A,0,[(CO,'''        let msg = serde_json::to_string(&item)?;
        trace!("-> {}", msg);

        // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
        // the length of the message, and the message body.
        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);
        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
        writer.flush()?;

        Ok(())
''','''        encode_message(&item, dst)
'''),(CO,'''fn number_of_digits(''','''fn encode_message<T: Serialize>(item: &T, dst: &mut BytesMut) -> Result<(), ParseError> {
    let msg = serde_json::to_string(item)?;
    trace!("-> {}", msg);

    let len = msg.len();
    dst.reserve(len + number_of_digits(len) + 20);
    let mut writer = dst.writer();
    write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", len, msg)?;
    writer.flush()?;
    Ok(())
}

fn number_of_digits(''')]),
("k-digits-loop",A,0,[(CO,'''    let mut num_digits = 0;

    while n > 0 {
        n /= 10;
        num_digits += 1;
    }

    num_digits
''','''    let mut num_digits = 0;

    loop {
        if n == 0 {
            return num_digits;
        }
        n /= 10;
        num_digits += 1;
    }
''')]),
("k-body-helper",A,0,[(CO,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {
                Ok("") => Ok(None),
                Ok(message) => {
                    trace!("<- {}", message);
                    match serde_json::from_str(message) {
                        Ok(parsed) => Ok(Some(parsed)),
                        Err(err) => Err(err.into()),
                    }
                }
                Err(err) => Err(err.into()),
            };
''','''            let result = decode_body(&src[..content_len]);
'''),(CO,'''fn decode_headers(''','''fn decode_body<T: DeserializeOwned>(bytes: &[u8]) -> Result<Option<T>, ParseError> {
    let message = std::str::from_utf8(bytes)?;
    if message.is_empty() {
        return Ok(None);
    }

    trace!("<- {}", message);
    Ok(Some(serde_json::from_str(message)?))
}

fn decode_headers(''')]),
("k-body-take",A,0,[(CO,'''            src.advance(content_len);
            self.content_len = None; // Reset state in preparation for parsing next message.

            result
''','''            self.content_len.take(); // Reset state in preparation for parsing next message.
            src.advance(content_len);
            result
''')]),
("k-body-split",A,0,[(CO,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {''','''            let bytes = src.split_to(content_len);
            let result = match std::str::from_utf8(&bytes) {'''),(CO,'''            src.advance(content_len);
            self.content_len = None; // Reset''','''            self.content_len = None; // Reset''')]),
("k-mapok",A,0,[(CO,'''                    match serde_json::from_str(message) {
                        Ok(parsed) => Ok(Some(parsed)),
                        Err(err) => Err(err.into()),
                    }
''','''                    serde_json::from_str(message)
                        .map(Some)
                        .map_err(ParseError::from)
''')]),
("k-recover-while",A,0,[(CO,'''            let len = src.len();
            match self.0.decode(src) {
                // An empty message was skipped. There may be another message behind it already.
                Ok(None) if src.len() < len => continue,
                result => return Ok(result.transpose()),
            }
''','''            let before = src.len();
            let result = self.0.decode(src);
            let skipped = matches!(result, Ok(None)) && src.len() != before;
            if !skipped {
                return Ok(result.transpose());
            }
''')]),
]
