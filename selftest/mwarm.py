"""Refactorings that change no behaviour; every check has to stay quiet on each of them."""
LY="src/service/layers.rs"; PE="src/service/pending.rs"; S="src/service.rs"; ST="src/service/state.rs"; R="src/jsonrpc/router.rs"; MA="tower-lsp-macros/src/lib.rs"; L="src/lib.rs"; C="src/codec.rs"; T="src/transport.rs"; SO="src/service/client/socket.rs"; CP="src/service/client/pending.rs"; CL="src/service/client.rs"; PR="src/service/client/progress.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; J="src/jsonrpc.rs"; E="src/jsonrpc/error.rs"
A="P01"
INIT='''            Box::pin(async move {
                let response = fut.await?;

                // Leave the state alone if `exit` was received in the meantime.
                match &response {
                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
                }

                Ok(response)
            })
'''
NORM='''        match self.state.get() {
            State::Initialized => self.inner.call(req),
            cur_state => {
                let (_, id, _) = req.into_parts();
                future::ok(not_initialized_response(id, cur_state)).boxed()
            }
        }
'''
SHUT='''        match self.state.get() {
            State::Initialized => {
                info!("shutdown request received, shutting down");
                self.state.set(State::ShutDown);
                self.inner.call(req)
            }
            cur_state => {
                let (_, id, _) = req.into_parts();
                future::ok(not_initialized_response(id, cur_state)).boxed()
            }
        }
'''
NOTI='''    let id = id?;
    let error = match server_state {
        State::Uninitialized | State::Initializing => not_initialized_error(),
        _ => Error::invalid_request(),
    };

    Some(Response::from_error(id, error))
'''
CANC='''        match req.id().cloned() {
            Some(id) => self.pending.execute(id, self.inner.call(req)).boxed(),
            None => self.inner.call(req).boxed(),
        }
'''
EXEC='''        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {
            let (handler_fut, abort_handle) = future::abortable(fut);
            entry.insert(abort_handle);

            let requests = self.0.clone();
            Either::Left(async move {
                let abort_result = handler_fut.await;
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                if let Ok(handler_result) = abort_result {
                    handler_result
                } else {
                    Ok(Some(Response::from_error(id, Error::request_cancelled())))
                }
            })
        } else {
            Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) })
        }
'''
TRANS='''        let _ = self
            .0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);
'''
MH='''        match id {
            Some(_) if R::is_notification() => return future::ok(().into_response(id)).boxed(),
            None if !R::is_notification() => return future::ok(None).boxed(),
            _ => {}
        }

        let params = match P::from_params(params) {
            Ok(params) => params,
            Err(err) => return future::ok(id.map(|id| Response::from_error(id, err))).boxed(),
        };

        (self.f)(params)
            .map(move |r| Ok(r.into_response(id)))
            .boxed()
'''
ROUTE='''        if let Some(handler) = self.methods.get_mut(req.method()) {
            handler.call(req)
        } else {
            let (method, id, _) = req.into_parts();
            future::ok(id.map(|id| {
                let mut error = Error::method_not_found();
                error.data = Some(Value::from(method));
                Response::from_error(id, error)
            }))
            .boxed()
        }
'''
REG='''        let server = &self.server;
        self.methods.entry(name).or_insert_with(|| {
            let server = server.clone();
            let handler = MethodHandler::new(move |params| {
                let callback = callback.clone();
                let server = server.clone();
                async move { callback.invoke(&*server, params).await }
            });

            BoxService::new(layer.layer(handler))
        });
'''
FP1='''        if let Some(p) = params {
            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))
        } else {
            Err(Error::invalid_params("Missing params field"))
        }
'''
FP0='''        if let Some(p) = params {
            Err(Error::invalid_params(format!("Unexpected params: {p}")))
        } else {
            Ok(())
        }
'''
IR='''        debug_assert!(id.is_some(), "Requests always contain an `id` field");
        if let Some(id) = id {
            let result = self.and_then(|r| {
                serde_json::to_value(r).map_err(|e| Error {
                    code: ErrorCode::InternalError,
                    message: e.to_string().into(),
                    data: None,
                })
            });
            Some(Response::from_parts(id, result))
        } else {
            None
        }
'''
REQ='''                        if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                            error!("{}", display_sources(err.into().as_ref()));
                            break;
                        }

                        let fut = service.call(req).unwrap_or_else(|err| {
                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });

                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }
'''
INS='''            id => match self.0.entry(id.clone()) {
                Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),
                Entry::Occupied(mut entry) => {
                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };

                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }
                }
            },
'''
HDRS='''    for header in headers {
        match header.name {
            "Content-Length" => {
                let string = std::str::from_utf8(header.value)?;
                let parsed_len = string.parse()?;
                content_len = Some(parsed_len);
            }
            "Content-Type" => {
                let string = std::str::from_utf8(header.value)?;
                let charset = string
                    .split(';')
                    .skip(1)
                    .map(|param| param.trim())
                    .find_map(|param| param.strip_prefix("charset="));

                match charset {
                    Some("utf-8") | Some("utf8") => {}
                    _ => return Err(ParseError::InvalidContentType),
                }
            }
            other => warn!("encountered unsupported header: {:?}", other),
        }
    }
'''
M=[
("w-init-bool",A,0,[(LY,INIT,'''            Box::pin(async move {
                let response = fut.await?;

                // Leave the state alone if `exit` was received in the meantime.
                let succeeded = response.as_ref().map_or(false, Response::is_ok);
                let next = if succeeded {
                    State::Initialized
                } else {
                    State::Uninitialized
                };
                state.transition(State::Initializing, next);

                Ok(response)
            })
''')]),
("w-init-map-ok",A,0,[(LY,INIT,'''            fut.map_ok(move |response| {
                // Leave the state alone if `exit` was received in the meantime.
                match response.as_ref() {
                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
                }

                response
            })
            .boxed()
'''),(LY,"FutureExt","FutureExt, TryFutureExt")]),
("w-init-settle",A,0,[(LY,INIT,'''            Box::pin(async move {
                let response = fut.await?;
                settle(&state, response.as_ref());
                Ok(response)
            })
'''),(LY,"fn not_initialized_response(",'''/// Leaves the state alone if `exit` was received in the meantime.
fn settle(state: &ServerState, response: Option<&Response>) {
    match response {
        Some(res) if res.is_ok() => state.transition(State::Initializing, State::Initialized),
        Some(_) | None => state.transition(State::Initializing, State::Uninitialized),
    }
}

fn not_initialized_response(''')]),
("w-init-is-error",A,0,[(LY,'''                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
''','''                    Some(res) if res.error().is_none() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    Some(_) | None => {
                        state.transition(State::Initializing, State::Uninitialized)
                    }
''')]),
("w-init-begin",A,0,[(LY,'''        if self.state.get() == State::Uninitialized {
            self.state.set(State::Initializing);
            let state''','''        if self.state.begin(State::Uninitialized, State::Initializing) {
            let state'''),(ST,"    pub fn get(&self)",'''    /// Moves from `from` to `to`, and says whether that was possible.
    pub fn begin(&self, from: State, to: State) -> bool {
        let starts = self.get() == from;
        if starts {
            self.set(to);
        }
        starts
    }

    pub fn get(&self)''')]),
("w-init-cas",A,0,[(LY,'''        if self.state.get() == State::Uninitialized {
            self.state.set(State::Initializing);
            let state''','''        if self.state.transition(State::Uninitialized, State::Initializing) {
            let state'''),(ST,"    pub fn transition(&self, from: State, to: State) {\n"+TRANS,'''    pub fn transition(&self, from: State, to: State) -> bool {
        self.0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst)
            .is_ok()
'''),(LY,INIT,INIT.replace('''                match &response {
                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
                }
''','''                let next = match &response {
                    Some(res) if res.is_ok() => State::Initialized,
                    _ => State::Uninitialized,
                };
                state.transition(State::Initializing, next);
'''))]),
("w-gate-shared",A,0,[(LY,NORM,'''        match admit(&self.state, &req) {
            Ok(()) => self.inner.call(req),
            Err(response) => future::ok(response).boxed(),
        }
'''),(LY,SHUT,'''        match admit(&self.state, &req) {
            Ok(()) => {
                info!("shutdown request received, shutting down");
                self.state.set(State::ShutDown);
                self.inner.call(req)
            }
            Err(response) => future::ok(response).boxed(),
        }
'''),(LY,"fn not_initialized_response(",'''/// Lets the request pass if the server is initialized, and is the answer to it otherwise.
fn admit(state: &ServerState, req: &Request) -> Result<(), Option<Response>> {
    match state.get() {
        State::Initialized => Ok(()),
        other => Err(not_initialized_response(req.id().cloned(), other)),
    }
}

fn not_initialized_response(''')]),
("w-norm-early",A,0,[(LY,NORM,'''        let state = self.state.get();
        if state != State::Initialized {
            let (_, id, _) = req.into_parts();
            return Box::pin(future::ready(Ok(not_initialized_response(id, state))));
        }

        self.inner.call(req)
''')]),
("w-norm-async",A,0,[(LY,NORM,'''        let state = self.state.get();
        if state == State::Initialized {
            return self.inner.call(req);
        }

        Box::pin(async move {
            let (_, id, _) = req.into_parts();
            Ok(not_initialized_response(id, state))
        })
''')]),
("w-noti-map",A,0,[(LY,NOTI,'''    id.map(|id| {
        let error = match server_state {
            State::Uninitialized | State::Initializing => not_initialized_error(),
            State::Initialized | State::ShutDown | State::Exited => Error::invalid_request(),
        };
        Response::from_error(id, error)
    })
''')]),
("w-noti-if",A,0,[(LY,NOTI,'''    let early = matches!(server_state, State::Uninitialized | State::Initializing);
    match (id, early) {
        (None, _) => None,
        (Some(id), true) => Some(Response::from_error(id, not_initialized_error())),
        (Some(id), false) => Some(Response::from_error(id, Error::invalid_request())),
    }
''')]),
("w-canc-let-else",A,0,[(LY,CANC,'''        let Some(id) = req.id().cloned() else {
            return self.inner.call(req).boxed();
        };

        let handler = self.inner.call(req);
        self.pending.execute(id, handler).boxed()
''')]),
("w-canc-first",A,0,[(LY,CANC,'''        let id = req.id().cloned();
        let fut = self.inner.call(req);

        if let Some(id) = id {
            Box::pin(self.pending.execute(id, fut))
        } else {
            Box::pin(fut)
        }
''')]),
("w-exec-match",A,0,[(PE,EXEC,'''        let entry = match self.0.entry(id.clone()) {
            Entry::Vacant(entry) => entry,
            Entry::Occupied(_) => {
                return Either::Right(async {
                    Ok(Some(Response::from_error(id, Error::invalid_request())))
                });
            }
        };

        let (handler_fut, abort_handle) = future::abortable(fut);
        entry.insert(abort_handle);

        let requests = Arc::clone(&self.0);
        Either::Left(async move {
            let result = handler_fut.await;
            requests.remove(&id); // Remove abort handle now to avoid double cancellation.

            match result {
                Ok(response) => response,
                Err(future::Aborted) => {
                    Ok(Some(Response::from_error(id, Error::request_cancelled())))
                }
            }
        })
''')]),
("w-exec-one-block",A,0,[(PE,EXEC,'''        let reserved = match self.0.entry(id.clone()) {
            Entry::Occupied(_) => None,
            Entry::Vacant(entry) => {
                let (handler_fut, abort_handle) = future::abortable(fut);
                entry.insert(abort_handle);
                Some((handler_fut, self.0.clone()))
            }
        };

        async move {
            let error = if let Some((handler_fut, requests)) = reserved {
                let abort_result = handler_fut.await;
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                match abort_result {
                    Ok(handler_result) => return handler_result,
                    Err(_) => Error::request_cancelled(),
                }
            } else {
                Error::invalid_request()
            };

            Ok(Some(Response::from_error(id, error)))
        }
'''),(PE,"use futures::future::{self, Either};","use futures::future;")]),
("w-exec-map",A,0,[(PE,'''            Either::Left(async move {
                let abort_result = handler_fut.await;
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                if let Ok(handler_result) = abort_result {
                    handler_result
                } else {
                    Ok(Some(Response::from_error(id, Error::request_cancelled())))
                }
            })
''','''            Either::Left(futures::FutureExt::map(handler_fut, move |abort_result| {
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                abort_result.unwrap_or_else(|_| {
                    Ok(Some(Response::from_error(id, Error::request_cancelled())))
                })
            }))
''')]),
("w-exec-refusal",A,0,[(PE,EXEC,EXEC.replace("Ok(Some(Response::from_error(id, Error::request_cancelled())))","refuse(id, Error::request_cancelled())").replace("async { Ok(Some(Response::from_error(id, Error::invalid_request()))) }","future::ready(refuse(id, Error::invalid_request()))")),(PE,"impl Debug for Pending",'''fn refuse(id: Id, error: Error) -> Result<Option<Response>, ExitedError> {
    Ok(Some(Response::from_error(id, error)))
}

impl Debug for Pending''')]),
("w-cancel-match",A,0,[(PE,'''        if let Some(handle) = self.0.get(id) {
            handle.abort();
            info!("successfully cancelled request with ID: {}", id);
        } else {
            debug!(
                "client asked to cancel request {}, but no such pending request exists, ignoring",
                id
            );
        }
''','''        match self.0.get(id) {
            Some(handle) => {
                info!("cancelling request with ID: {}", id);
                handle.value().abort();
            }
            None => debug!("client asked to cancel unknown request {}, ignoring", id),
        }
''')]),
("w-cancel-let-else",A,0,[(PE,'''        if let Some(handle) = self.0.get(id) {
            handle.abort();
            info!("successfully cancelled request with ID: {}", id);
        } else {
            debug!(
                "client asked to cancel request {}, but no such pending request exists, ignoring",
                id
            );
        }
''','''        let Some(entry) = self.0.get(id) else {
            debug!("client asked to cancel unknown request {}, ignoring", id);
            return;
        };

        let (key, handle) = entry.pair();
        handle.abort();
        info!("successfully cancelled request with ID: {}", key);
''')]),
("w-state-from",A,0,[(ST,'''        match self.0.load(Ordering::SeqCst) {
            0 => State::Uninitialized,
            1 => State::Initializing,
            2 => State::Initialized,
            3 => State::ShutDown,
            4 => State::Exited,
            _ => unreachable!(),
        }
''','''        State::from_u8(self.0.load(Ordering::SeqCst)).expect("only states are stored")
'''),(ST,"/// Atomic value which",'''impl State {
    const ALL: [State; 5] = [
        State::Uninitialized,
        State::Initializing,
        State::Initialized,
        State::ShutDown,
        State::Exited,
    ];

    fn from_u8(n: u8) -> Option<State> {
        State::ALL.get(usize::from(n)).copied()
    }
}

/// Atomic value which''')]),
("w-state-swap",A,0,[(ST,"        self.0.store(state as u8, Ordering::SeqCst);","        self.0.swap(state as u8, Ordering::SeqCst);")]),
("w-state-match",A,0,[(ST,TRANS,'''        match self.0.compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => {}
            Err(_) => tracing::debug!("state has changed in the meantime"),
        }
''')]),
("w-mh-single",A,0,[(R,MH,'''        let is_request = id.is_some();
        if is_request == R::is_notification() {
            // A request for a notification handler is an error, and the reverse is ignored.
            return future::ok(().into_response(id)).boxed();
        }

        match P::from_params(params) {
            Ok(params) => {
                let fut = (self.f)(params);
                async move { Ok(fut.await.into_response(id)) }.boxed()
            }
            Err(err) => future::ok(id.map(|id| Response::from_error(id, err))).boxed(),
        }
''')]),
("w-mh-tuple",A,0,[(R,MH,'''        match (&id, R::is_notification()) {
            (Some(_), true) => return future::ok(().into_response(id)).boxed(),
            (None, false) => return future::ok(None).boxed(),
            (Some(_), false) | (None, true) => {}
        }

        let handled = match P::from_params(params) {
            Ok(params) => (self.f)(params),
            Err(err) => {
                let refusal = id.map(|id| Response::from_error(id, err));
                return Box::pin(future::ready(Ok(refusal)));
            }
        };

        Box::pin(async move {
            let result = handled.await;
            Ok(result.into_response(id))
        })
''')]),
("w-mh-let-else-helper",A,0,[(R,MH,'''        if let Some(answer) = Self::mismatch(&id) {
            return future::ok(answer).boxed();
        }

        let params = match P::from_params(params) {
            Ok(params) => params,
            Err(err) => return future::ok(id.map(|id| Response::from_error(id, err))).boxed(),
        };

        (self.f)(params)
            .map(move |r| Ok(r.into_response(id)))
            .boxed()
'''),(R,'''    fn new<F, Fut>(handler: F) -> Self
''','''    /// What to answer if the message is a request and the handler takes notifications, or vice versa.
    fn mismatch(id: &Option<Id>) -> Option<Option<Response>> {
        match id {
            Some(_) if R::is_notification() => Some(().into_response(id.clone())),
            None if !R::is_notification() => Some(None),
            _ => None,
        }
    }

    fn new<F, Fut>(handler: F) -> Self
''')]),
("w-ro-helper",A,0,[(R,ROUTE,'''        match self.methods.get_mut(req.method()) {
            Some(handler) => handler.call(req),
            None => future::ok(unknown_method(req)).boxed(),
        }
'''),(R,"pub struct MethodHandler",'''fn unknown_method(req: Request) -> Option<Response> {
    let (method, id, _) = req.into_parts();
    let error = Error {
        data: Some(Value::from(method)),
        ..Error::method_not_found()
    };

    Some(Response::from_error(id?, error))
}

pub struct MethodHandler''')]),
("w-ro-and-then",A,0,[(R,ROUTE,'''        let Some(handler) = self.methods.get_mut(req.method()) else {
            let response = req.id().cloned().map(|id| {
                let mut error = Error::method_not_found();
                error.data = Some(Value::String(req.method().to_owned()));
                Response::from_error(id, error)
            });
            return future::ok(response).boxed();
        };

        handler.call(req)
''')]),
("w-reg-contains",A,0,[(R,REG,'''        if self.methods.contains_key(name) {
            return self;
        }

        let server = Arc::clone(&self.server);
        let handler = MethodHandler::new(move |params| {
            let callback = callback.clone();
            let server = Arc::clone(&server);
            async move { callback.invoke(&server, params).await }
        });
        self.methods.insert(name, BoxService::new(layer.layer(handler)));
''')]),
("w-reg-vacant",A,0,[(R,REG,'''        if let std::collections::hash_map::Entry::Vacant(entry) = self.methods.entry(name) {
            let server = self.server.clone();
            let handler = MethodHandler::new(move |params| {
                let (callback, server) = (callback.clone(), server.clone());
                async move { callback.invoke(&*server, params).await }
            });

            entry.insert(BoxService::new(layer.layer(handler)));
        }
''')]),
("w-fp-question",A,0,[(R,FP1,'''        let value = params.ok_or_else(|| Error::invalid_params("Missing params field"))?;
        match serde_json::from_value(value) {
            Ok(params) => Ok((params,)),
            Err(e) => Err(Error::invalid_params(e.to_string())),
        }
'''),(R,FP0,'''        match params {
            None => Ok(()),
            Some(p) => Err(Error::invalid_params(format!("Unexpected params: {}", p))),
        }
''')]),
("w-fp-deserialize",A,0,[(R,FP1,'''        match params {
            Some(p) => P::deserialize(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string())),
            None => Err(Error::invalid_params("Missing params field")),
        }
''')]),
("w-ir-question",A,0,[(R,IR,'''        debug_assert!(id.is_some(), "Requests always contain an `id` field");
        let id = id?;
        Some(match self.and_then(|r| encode(&r)) {
            Ok(value) => Response::from_ok(id, value),
            Err(error) => Response::from_error(id, error),
        })
'''),(R,"mod private {",'''fn encode<R: Serialize>(result: &R) -> Result<Value, Error> {
    serde_json::to_value(result).map_err(|e| {
        let mut error = Error::internal_error();
        error.message = e.to_string().into();
        error
    })
}

mod private {''')]),
("w-tr-handler",A,0,[(T,REQ,'''                        match future::poll_fn(|cx| service.poll_ready(cx)).await {
                            Ok(()) => {}
                            Err(err) => {
                                log_error(err);
                                break;
                            }
                        }

                        let answer = service.call(req).map(|result| match result {
                            Ok(response) => response,
                            Err(err) => {
                                log_error(err);
                                None
                            }
                        });

                        let queued = server_tasks_tx.send(answer).await;
                        if let Err(_) = queued {
                            break;
                        }
'''),(T,"fn display_sources(",'''fn log_error(err: impl Into<Box<dyn std::error::Error + Send + Sync>>) {
    error!("{}", display_sources(err.into().as_ref()));
}

fn display_sources(''')]),
("w-tr-async-block",A,0,[(T,'''                        let fut = service.call(req).unwrap_or_else(|err| {
                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });
''','''                        let call = service.call(req);
                        let fut = async move {
                            match call.await {
                                Ok(response) => response,
                                Err(err) => {
                                    error!("{}", display_sources(err.into().as_ref()));
                                    None
                                }
                            }
                        };
''')]),
("w-tr-loop-let",A,0,[(T,'''            while let Some(msg) = framed_stdin.next().await {
                let msg = match msg {''','''            loop {
                let received = match framed_stdin.next().await {
                    Some(received) => received,
                    None => break,
                };

                let msg = match received {''')]),
("w-tr-pipeline",A,0,[(T,'''            .buffer_unordered(self.max_concurrency)
            .filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))
''','''            .buffer_unordered(self.max_concurrency)
            .filter_map(|response: Option<Response>| async move { response.map(Message::Response).map(Ok) })
''')]),
("w-tr-output-fn",A,0,[(T,'''            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
            .map(|_| ());
''','''            .forward(framed_stdout)
            .map(|result| {
                if let Err(e) = result {
                    error!("failed to encode message: {}", e);
                }
            });
''')]),
("w-tr-class",A,0,[(T,'''    match err {
        ParseError::Body(err) if err.is_data() => Error::invalid_request(),
        _ => Error::parse_error(),
    }
''','''    let well_formed = matches!(&err, ParseError::Body(e) if e.is_data());
    if well_formed {
        Error::invalid_request()
    } else {
        Error::parse_error()
    }
''')]),
("w-cp-take",A,0,[(CP,INS,'''            id => {
                let waiter = self.take(id);
                match waiter.map(|tx| tx.send(r)) {
                    Some(Ok(())) => {}
                    Some(Err(r)) => {
                        warn!("received response to abandoned request ID: {}", r.id())
                    }
                    None => warn!("received response with unknown request ID"),
                }
            }
'''),(CP,"    /// Marks the given",'''    /// Takes the waiter that has waited longest, if any.
    fn take(&self, id: &Id) -> Option<oneshot::Sender<Response>> {
        match self.0.entry(id.clone()) {
            Entry::Vacant(_) => None,
            Entry::Occupied(mut entry) if entry.get().len() > 1 => Some(entry.get_mut().remove(0)),
            Entry::Occupied(entry) => Some(entry.remove().remove(0)),
        }
    }

    /// Marks the given''')]),
("w-cp-if-let",A,0,[(CP,INS,'''            id => {
                if let Entry::Occupied(mut entry) = self.0.entry(id.clone()) {
                    let tx = entry.get_mut().remove(0);
                    if entry.get().is_empty() {
                        entry.remove();
                    }

                    if tx.send(r).is_err() {
                        warn!("received response to an abandoned request");
                    }
                } else {
                    warn!("received response with unknown request ID: {}", id);
                }
            }
''')]),
("w-cp-early",A,0,[(CP,'''        match r.id() {
            Id::Null => warn!("received response with request ID of `null`, ignoring"),
'''+INS+"        }\n",'''        let id = r.id().clone();
        if id == Id::Null {
            warn!("received response with request ID of `null`, ignoring");
            return;
        }

        let tx = match self.0.entry(id) {
            Entry::Vacant(entry) => {
                warn!("received response with unknown request ID: {}", entry.key());
                return;
            }
            Entry::Occupied(mut entry) => match entry.get().len() {
                1 => entry.remove().remove(0),
                _ => entry.get_mut().remove(0),
            },
        };

        if let Err(r) = tx.send(r) {
            warn!("received response to abandoned request ID: {}", r.id());
        }
''')]),
("w-hdr-fns",A,0,[(C,HDRS,'''    for header in headers {
        match header.name {
            "Content-Length" => content_len = Some(parse_length(header.value)?),
            "Content-Type" => check_type(header.value)?,
            other => warn!("encountered unsupported header: {:?}", other),
        }
    }
'''),(C,"fn decode_headers(",'''fn parse_length(value: &[u8]) -> Result<usize, ParseError> {
    Ok(std::str::from_utf8(value)?.parse()?)
}

fn check_type(value: &[u8]) -> Result<(), ParseError> {
    let charset = std::str::from_utf8(value)?
        .split(';')
        .skip(1)
        .map(str::trim)
        .find_map(|param| param.strip_prefix("charset="));

    match charset {
        Some("utf-8" | "utf8") => Ok(()),
        _ => Err(ParseError::InvalidContentType),
    }
}

fn decode_headers(''')]),
("w-hdr-if",A,0,[(C,HDRS,'''    for httparse::Header { name, value } in headers.iter().copied() {
        if name == "Content-Length" {
            content_len = Some(std::str::from_utf8(value)?.parse()?);
        } else if name == "Content-Type" {
            let string = std::str::from_utf8(value)?;
            let mut params = string.split(';').skip(1).map(|param| param.trim());
            let charset = params.find_map(|param| param.strip_prefix("charset="));

            if !matches!(charset, Some("utf-8") | Some("utf8")) {
                return Err(ParseError::InvalidContentType);
            }
        } else {
            warn!("encountered unsupported header: {:?}", name);
        }
    }
''')]),
("w-dec-split-fns",A,0,[(C,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {
                Ok("") => Ok(None),
                Ok(message) => {
                    trace!("<- {}", message);
                    match serde_json::from_str(message) {
                        Ok(parsed) => Ok(Some(parsed)),
                        Err(err) => Err(err.into()),
                    }
                }
                Err(err) => Err(err.into()),
            };

            src.advance(content_len);
            self.content_len = None; // Reset state in preparation for parsing next message.

            result
''','''            let body = src.split_to(content_len);
            self.content_len = None; // Reset state in preparation for parsing next message.
            parse_body(&body)
'''),(C,"fn number_of_digits(",'''fn parse_body<T: DeserializeOwned>(body: &[u8]) -> Result<Option<T>, ParseError> {
    let message = std::str::from_utf8(body)?;
    if message.is_empty() {
        return Ok(None);
    }

    trace!("<- {}", message);
    Ok(Some(serde_json::from_str(message)?))
}

fn number_of_digits(''')]),
("w-enc-shared",A,0,[(C,'''        let msg = serde_json::to_string(&item)?;
        trace!("-> {}", msg);

        // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
        // the length of the message, and the message body.
        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);
        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
        writer.flush()?;

        Ok(())
''','''        encode_message(&item, dst)
'''),(C,"fn number_of_digits(",'''fn encode_message<T: Serialize>(item: &T, dst: &mut BytesMut) -> Result<(), ParseError> {
    let body = serde_json::to_vec(item)?;
    trace!("-> {}", String::from_utf8_lossy(&body));

    let header = format!("Content-Length: {}\\r\\n\\r\\n", body.len());
    dst.reserve(header.len() + body.len());
    dst.extend_from_slice(header.as_bytes());
    dst.extend_from_slice(&body);
    Ok(())
}

#[allow(dead_code)]
fn number_of_digits('''),(C,"use std::io::{Error as IoError, Write};","use std::io::Error as IoError;"),(C,"use bytes::buf::BufMut;","")]),
("w-so-macro",A,0,[(SO,'''impl Sink<Response> for ClientSocket {
    type Error = ExitedError;

    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
    }
''','''impl ClientSocket {
    fn ended(&self) -> bool {
        self.rx.is_terminated() || matches!(self.state.get(), State::Exited)
    }
}

impl Sink<Response> for ClientSocket {
    type Error = ExitedError;

    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        let result = match self.ended() {
            true => Err(ExitedError(())),
            false => Ok(()),
        };

        Poll::Ready(result)
    }
''')]),
("w-cl-gate",A,0,[(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked::<N>(params).await;
        } else {
            let msg = Request::from_notification::<N>(params);
            trace!("server not initialized, supressing message: {}", msg);
        }
''','''        if !self.may_send() {
            let msg = Request::from_notification::<N>(params);
            trace!("server not initialized, supressing message: {}", msg);
            return;
        }

        self.send_notification_unchecked::<N>(params).await
'''),(CL,"    async fn send_notification_unchecked<N>",'''    fn may_send(&self) -> bool {
        match self.inner.state.get() {
            State::Initialized | State::ShutDown => true,
            State::Uninitialized | State::Initializing | State::Exited => false,
        }
    }

    async fn send_notification_unchecked<N>''')]),
("w-cl-decode",A,0,[(CL,'''        let (_, result) = response.into_parts();
        result.and_then(|v| {
            serde_json::from_value(v).map_err(|e| Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            })
        })
''','''        match response.into_parts() {
            (_, Ok(value)) => decode_result(value),
            (_, Err(error)) => Err(error),
        }
'''),(CL,"impl Debug for Client {",'''fn decode_result<T: serde::de::DeserializeOwned>(value: Value) -> jsonrpc::Result<T> {
    serde_json::from_value(value).map_err(|e| {
        let mut error = Error::new(ErrorCode::ParseError);
        error.message = e.to_string().into();
        error
    })
}

impl Debug for Client {''')]),
("w-cl-call",A,0,[(CL,'''        let mut tx = self.inner.tx.clone();
        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));

        Box::pin(async move {
            if tx.send(req).await.is_err() {
                return Err(ExitedError(()));
            }

            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),
                None => Ok(None),
            }
        })
''','''        let response_waiter = match req.id() {
            Some(id) => Some(self.inner.pending.wait(id.clone())),
            None => None,
        };
        let mut sender = self.inner.tx.clone();

        async move {
            sender.send(req).await.map_err(|_| ExitedError(()))?;

            let response = if let Some(waiter) = response_waiter {
                Some(waiter.await)
            } else {
                None
            };

            Ok(response)
        }
        .boxed()
'''),(CL,"use futures::future::BoxFuture;","use futures::future::{BoxFuture, FutureExt};")]),
("w-ma-layer-name",A,0,[(MA,'''            let layer = match &rpc_name[..] {
                "initialize" => quote! { layers::Initialize::new(state.clone(), pending.clone()) },
                "shutdown" => quote! { layers::Shutdown::new(state.clone(), pending.clone()) },
                _ => quote! { layers::Normal::new(state.clone(), pending.clone()) },
            };
''','''            let name = match rpc_name.as_str() {
                "initialize" => quote! { Initialize },
                "shutdown" => quote! { Shutdown },
                _ => quote! { Normal },
            };
            let layer = quote! { layers::#name::new(state.clone(), pending.clone()) };
''')]),
("w-ma-args",A,0,[(MA,'''                (Some(params), Some(result)) => quote! {
                    async fn #handler<S: #trait_name>(server: &S, params: #params) -> #result {
                        server.#handler(params).await
                    }
                    router.method(#rpc_name, #handler, #layer);
                },
                (None, Some(result)) => quote! {
                    async fn #handler<S: #trait_name>(server: &S) -> #result {
                        server.#handler().await
                    }
                    router.method(#rpc_name, #handler, #layer);
                },
                (Some(params), None) => quote! {
                    async fn #handler<S: #trait_name>(server: &S, params: #params) {
                        server.#handler(params).await
                    }
                    router.method(#rpc_name, #handler, #layer);
                },
                (None, None) => quote! {
                    async fn #handler<S: #trait_name>(server: &S) {
                        server.#handler().await
                    }
                    router.method(#rpc_name, #handler, #layer);
                },
''','''                (params, result) => {
                    let decl = params.map(|ty| quote! { , params: #ty });
                    let arg = params.map(|_| quote! { params });
                    let output = result.map(|ty| quote! { -> #ty });
                    quote! {
                        async fn #handler<S: #trait_name>(server: &S #decl) #output {
                            server.#handler(#arg).await
                        }
                        router.method(#rpc_name, #handler, #layer);
                    }
                }
''')]),
("w-sv-build",A,0,[(S,'''        let state = Arc::new(ServerState::new());

        let (client, socket) = Client::new(state.clone());
        let inner = Router::new(init(client.clone()));
        let pending = Arc::new(Pending::new());

        LspServiceBuilder {
            inner: crate::generated::register_lsp_methods(
                inner,
                state.clone(),
                pending.clone(),
                client,
            ),
            state,
            pending,
            socket,
        }
''','''        let pending = Arc::new(Pending::new());
        let state = Arc::new(ServerState::new());
        let (client, socket) = Client::new(Arc::clone(&state));

        let server = init(client.clone());
        let inner = crate::generated::register_lsp_methods(
            Router::new(server),
            Arc::clone(&state),
            Arc::clone(&pending),
            client,
        );

        LspServiceBuilder {
            inner,
            socket,
            pending,
            state,
        }
''')]),
("w-sv-call-match",A,0,[(S,'''        if self.state.get() == State::Exited {
            return future::err(ExitedError(())).boxed();
        }

        self.inner.call(req)
''','''        match self.state.get() {
            State::Exited => Box::pin(async { Err(ExitedError(())) }),
            State::Uninitialized | State::Initializing | State::Initialized | State::ShutDown => {
                self.inner.call(req)
            }
        }
''')]),
("w-q-partial",A,0,[(Q,'''            params: Some(serde_json::to_value(params).unwrap()),
            id: Some(id),
        }''','''            params: Some(encode(params)),
            id: Some(id),
        }'''),(Q,'''            params: Some(serde_json::to_value(params).unwrap()),
            id: None,
        }''','''            params: Some(encode(params)),
            id: None,
        }'''),(Q,"impl FromStr for Request",'''fn encode<T: Serialize>(params: T) -> Value {
    match serde_json::to_value(params) {
        Ok(value) => value,
        Err(err) => panic!("params cannot be serialized: {}", err),
    }
}

impl FromStr for Request''')]),
("w-e-table",A,0,[(E,'''        match code {
            -32700 => ErrorCode::ParseError,
            -32600 => ErrorCode::InvalidRequest,
            -32601 => ErrorCode::MethodNotFound,
            -32602 => ErrorCode::InvalidParams,
            -32603 => ErrorCode::InternalError,
            -32800 => ErrorCode::RequestCancelled,
            -32801 => ErrorCode::ContentModified,
            code => ErrorCode::ServerError(code),
        }
''','''        const PREDEFINED: [ErrorCode; 7] = [
            ErrorCode::ParseError,
            ErrorCode::InvalidRequest,
            ErrorCode::MethodNotFound,
            ErrorCode::InvalidParams,
            ErrorCode::InternalError,
            ErrorCode::RequestCancelled,
            ErrorCode::ContentModified,
        ];

        for known in PREDEFINED {
            if known.code() == code {
                return known;
            }
        }

        ErrorCode::ServerError(code)
''')]),
("w-e-params",A,0,[(E,'''        Error {
            code: ErrorCode::InvalidParams,
            message: message.into(),
            data: None,
        }
''','''        let mut error = Error::new(ErrorCode::InvalidParams);
        error.message = message.into();
        error
''')]),
("w-j-version",A,0,[(J,'''        let Inner(ver) = Inner::deserialize(deserializer)?;

        match ver.as_ref() {
            "2.0" => Ok(Version),
            _ => Err(de::Error::custom("expected JSON-RPC version \\"2.0\\"")),
        }
''','''        let inner = Inner::deserialize(deserializer)?;
        if inner.0 != "2.0" {
            return Err(de::Error::custom("expected JSON-RPC version \\"2.0\\""));
        }

        Ok(Version)
''')]),
("w-pr-notify",A,0,[(PR,'''    async fn send_progress_report(&self, report: WorkDoneProgressReport) {
        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(report)),
            })
            .await;
    }
''','''    async fn send_progress_report(&self, report: WorkDoneProgressReport) {
        self.notify(WorkDoneProgress::Report(report)).await;
    }

    async fn notify(&self, progress: WorkDoneProgress) {
        let params = ProgressParams {
            token: self.token.clone(),
            value: ProgressParamsValue::WorkDone(progress),
        };
        self.client
            .send_notification::<ProgressNotification>(params)
            .await;
    }
'''),(PR,'''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token,
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(
                    lsp_types::WorkDoneProgressEnd { message },
                )),
            })
            .await;
''','''        let end = lsp_types::WorkDoneProgressEnd { message };
        self.notify(WorkDoneProgress::End(end)).await;
''')]),
]
