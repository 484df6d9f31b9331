S="src/service.rs"; L="src/service/layers.rs"; P="src/service/pending.rs"; ST="src/service/state.rs"; R="src/jsonrpc/router.rs"; MC="tower-lsp-macros/src/lib.rs"; E="src/jsonrpc/error.rs"; J="src/jsonrpc.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"
A="P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P23 P24 P28"
INITCALL=open("/repo/"+L).read().split("    fn call(&mut self, req: Request) -> Self::Future {\n",1)[1].split("\n    }\n}",1)[0]
CALLN='''        match self.state.get() {
            State::Initialized => self.inner.call(req),
            cur_state => {
                let (_, id, _) = req.into_parts();
                future::ok(not_initialized_response(id, cur_state)).boxed()
            }
        }'''
CALLS='''        match self.state.get() {
            State::Initialized => {
                info!("shutdown request received, shutting down");
                self.state.set(State::ShutDown);
                self.inner.call(req)
            }
            cur_state => {
                let (_, id, _) = req.into_parts();
                future::ok(not_initialized_response(id, cur_state)).boxed()
            }
        }'''
NIR='''    let id = id?;
    let error = match server_state {
        State::Uninitialized | State::Initializing => not_initialized_error(),
        _ => Error::invalid_request(),
    };

    Some(Response::from_error(id, error))'''
CAN='''        match req.id().cloned() {
            Some(id) => self.pending.execute(id, self.inner.call(req)).boxed(),
            None => self.inner.call(req).boxed(),
        }'''
EXIT='''        info!("exit notification received, stopping");
        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();
        future::ok(None)'''
RCALL='''        if let Some(handler) = self.methods.get_mut(req.method()) {
            handler.call(req)
        } else {
            let (method, id, _) = req.into_parts();
            future::ok(id.map(|id| {
                let mut error = Error::method_not_found();
                error.data = Some(Value::from(method));
                Response::from_error(id, error)
            }))
            .boxed()
        }'''
MCALL='''        match id {
            Some(_) if R::is_notification() => return future::ok(().into_response(id)).boxed(),
            None if !R::is_notification() => return future::ok(None).boxed(),
            _ => {}
        }

        let params = match P::from_params(params) {
            Ok(params) => params,
            Err(err) => return future::ok(id.map(|id| Response::from_error(id, err))).boxed(),
        };

        (self.f)(params)
            .map(move |r| Ok(r.into_response(id)))
            .boxed()'''
INTO='''        debug_assert!(id.is_some(), "Requests always contain an `id` field");
        if let Some(id) = id {
            let result = self.and_then(|r| {
                serde_json::to_value(r).map_err(|e| Error {
                    code: ErrorCode::InternalError,
                    message: e.to_string().into(),
                    data: None,
                })
            });
            Some(Response::from_parts(id, result))
        } else {
            None
        }'''
EXEC=open("/repo/"+P).read().split("    {\n        if let Entry",1)[1]; EXEC="        if let Entry"+EXEC.split("\n    }\n\n    /// Attempts",1)[0]
ALL="""        self.0.retain(|_, handle| {
            handle.abort();
            false
        });"""
M=[
# Refactorings.
("r-init-early-return",A,0,[(L,INITCALL,'''        if self.state.get() != State::Uninitialized {
            warn!("received duplicate `initialize` request, ignoring");
            let (_, id, _) = req.into_parts();
            let response = id.map(|id| Response::from_error(id, Error::invalid_request()));
            return future::ready(Ok(response)).boxed();
        }

        self.state.set(State::Initializing);
        let state = Arc::clone(&self.state);
        let fut = self.inner.call(req);

        async move {
            let response = fut.await?;
            let next = if response.as_ref().map_or(false, Response::is_ok) {
                State::Initialized
            } else {
                State::Uninitialized
            };
            state.transition(State::Initializing, next);
            Ok(response)
        }
        .boxed()''')]),
("r-init-helper",A,0,[(L,'''                // Leave the state alone if `exit` was received in the meantime.
                match &response {
                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
                }
''','''                leave_initializing(&state, response.as_ref());
'''),(L,"/// Middleware which implements `shutdown` request","fn leave_initializing(state: &ServerState, response: Option<&Response>) {\n    let succeeded = matches!(response, Some(res) if res.is_ok());\n    state.transition(\n        State::Initializing,\n        if succeeded { State::Initialized } else { State::Uninitialized },\n    );\n}\n\n/// Middleware which implements `shutdown` request")]),
("r-init-map",A,0,[(L,'''            Box::pin(async move {
                let response = fut.await?;
''','''            fut.map_ok(move |response| {
'''),(L,'''                Ok(response)
            })
        } else {''','''                response
            }).boxed()
        } else {'''),(L,"use futures::future::{self, BoxFuture, FutureExt};","use futures::future::{self, BoxFuture, FutureExt, TryFutureExt};")]),
("r-init-match-result",A,0,[(L,'''                let response = fut.await?;
''','''                let response = match fut.await {
                    Ok(response) => response,
                    Err(err) => return Err(err),
                };
''')]),
("r-init-async-fn",A,0,[(L,INITCALL.split("            Box::pin",1)[1].split("        } else",1)[0],'''(finish_initialize(state, fut))
'''),(L,"/// Middleware which implements `shutdown` request",'''async fn finish_initialize<F>(state: Arc<ServerState>, fut: F) -> Result<Option<Response>, ExitedError>
where
    F: std::future::Future<Output = Result<Option<Response>, ExitedError>>,
{
    let response = fut.await?;
    if let Some(res) = &response {
        if res.is_ok() {
            state.transition(State::Initializing, State::Initialized);
            return Ok(response);
        }
    }
    state.transition(State::Initializing, State::Uninitialized);
    Ok(response)
}

/// Middleware which implements `shutdown` request''')]),
("r-shutdown-if",A,0,[(L,CALLS,'''        let state = self.state.get();
        if let State::Initialized = state {
            info!("shutdown request received, shutting down");
            self.state.set(State::ShutDown);
            return self.inner.call(req);
        }

        reject(req, state)'''),(L,CALLN,'''        let state = self.state.get();
        if state != State::Initialized {
            return reject(req, state);
        }

        self.inner.call(req)'''),(L,"fn not_initialized_response","fn reject<E: Send + 'static>(req: Request, state: State) -> BoxFuture<'static, Result<Option<Response>, E>> {\n    let (_, id, _) = req.into_parts();\n    future::ok(not_initialized_response(id, state)).boxed()\n}\n\nfn not_initialized_response")]),
("r-states-listed",A,0,[(L,CALLN,CALLN.replace("            cur_state => {","            cur_state @ (State::Uninitialized | State::Initializing | State::ShutDown | State::Exited) => {")),(L,NIR,'''    id.map(|id| {
        Response::from_error(
            id,
            match server_state {
                State::Initialized | State::ShutDown | State::Exited => Error::invalid_request(),
                State::Uninitialized | State::Initializing => not_initialized_error(),
            },
        )
    })''')]),
("r-state-method",A,0,[(L,NIR,'''    let error = if server_state.is_before_initialized() {
        not_initialized_error()
    } else {
        Error::invalid_request()
    };

    Some(Response::from_error(id?, error))'''),(ST,"/// Atomic value","impl State {\n    /// Whether the server is not initialized yet.\n    pub fn is_before_initialized(self) -> bool {\n        matches!(self, State::Uninitialized | State::Initializing)\n    }\n}\n\n/// Atomic value")]),
("r-state-ord",A,0,[(L,NIR,NIR.replace("match server_state {","match server_state as u8 {").replace("State::Uninitialized | State::Initializing =>","0 | 1 =>"))]),
("r-cancellable-if-let",A,0,[(L,CAN,'''        let id = req.id().cloned();
        let fut = self.inner.call(req);
        if let Some(id) = id {
            self.pending.execute(id, fut).boxed()
        } else {
            fut.boxed()
        }''')]),
("r-cancellable-pin",A,0,[(L,CAN,'''        let id = match req.id() {
            None => return Box::pin(self.inner.call(req)),
            Some(id) => id.clone(),
        };
        Box::pin(self.pending.execute(id, self.inner.call(req)))''')]),
("r-exit-order",A,0,[(L,EXIT,'''        self.state.set(State::Exited);
        info!("exit notification received, stopping");
        self.client.close();
        self.pending.cancel_all();
        future::ready(Ok(None))''')]),
("r-exit-method",A,0,[(L,EXIT,'''        info!("exit notification received, stopping");
        self.stop();
        future::ok(None)'''),(L,"impl<S> Service<Request> for ExitService<S> {","impl<S> ExitService<S> {\n    fn stop(&self) {\n        let ExitService { state, pending, client, .. } = self;\n        state.set(State::Exited);\n        pending.cancel_all();\n        client.close();\n    }\n}\n\nimpl<S> Service<Request> for ExitService<S> {")]),
("r-exit-match",A,0,[(L,'''        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }''','''        Poll::Ready(match self.state.get() {
            State::Exited => Err(ExitedError(())),
            State::Uninitialized | State::Initializing | State::Initialized | State::ShutDown => Ok(()),
        })''')]),
("r-pending-guard",A,0,[(P,EXEC,'''        let entry = match self.0.entry(id.clone()) {
            Entry::Vacant(entry) => entry,
            Entry::Occupied(_) => {
                let response = Response::from_error(id, Error::invalid_request());
                return Either::Right(future::ready(Ok(Some(response))));
            }
        };

        let (handler_fut, abort_handle) = future::abortable(fut);
        entry.insert(abort_handle);
        let requests = Arc::clone(&self.0);

        Either::Left(async move {
            let result = handler_fut.await;
            requests.remove(&id);

            match result {
                Ok(handler_result) => handler_result,
                Err(future::Aborted) => Ok(Some(Response::from_error(id, Error::request_cancelled()))),
            }
        })''')]),
("r-pending-map",A,0,[(P,EXEC,'''        let vacant = match self.0.entry(id.clone()) {
            Entry::Vacant(entry) => entry,
            Entry::Occupied(_) => return async { Ok(Some(Response::from_error(id, Error::invalid_request()))) }.boxed(),
        };
        let (handler_fut, abort_handle) = future::abortable(fut);
        vacant.insert(abort_handle);

        let requests = self.0.clone();
        handler_fut
            .map(move |result| {
                requests.remove(&id);
                result.unwrap_or_else(|_| Ok(Some(Response::from_error(id, Error::request_cancelled()))))
            })
            .boxed()'''),(P,"use futures::future::{self, Either};","use futures::future::{self, FutureExt};")]),
("r-pending-pair",A,0,[(P,"            let (handler_fut, abort_handle) = future::abortable(fut);\n            entry.insert(abort_handle);\n","            let (abort_handle, registration) = future::AbortHandle::new_pair();\n            entry.insert(abort_handle);\n            let handler_fut = future::Abortable::new(fut, registration);\n")]),
("r-pending-clone-first",A,0,[(P,"        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {","        let requests = self.0.clone();\n        if let Entry::Vacant(entry) = requests.clone().entry(id.clone()) {"),(P,"            let requests = self.0.clone();\n","")]),
("r-pending-match-await",A,0,[(P,'''                let abort_result = handler_fut.await;
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.

                if let Ok(handler_result) = abort_result {
                    handler_result
                } else {
                    Ok(Some(Response::from_error(id, Error::request_cancelled())))
                }''','''                let result = match handler_fut.await {
                    Ok(result) => result,
                    Err(_) => Ok(Some(Response::from_error(id.clone(), Error::request_cancelled()))),
                };
                requests.remove(&id);
                result''')]),
("r-cancel-all-iter",A,0,[(P,'''        self.0.retain(|_, handle| {
            handle.abort();
            false
        });''','''        for entry in self.0.iter() {
            entry.value().abort();
        }
        self.0.clear();''')]),
("r-cancel-all-no-clear",A,0,[(P,'''        self.0.retain(|_, handle| {
            handle.abort();
            false
        });''','''        self.0.iter().for_each(|entry| entry.abort());''')]),
("r-cancel-match",A,0,[(P,'''        if let Some(handle) = self.0.get(id) {
            handle.abort();
            info!("successfully cancelled request with ID: {}", id);
        } else {
            debug!(
                "client asked to cancel request {}, but no such pending request exists, ignoring",
                id
            );
        }''','''        match self.0.get(id) {
            None => debug!(
                "client asked to cancel request {}, but no such pending request exists, ignoring",
                id
            ),
            Some(handle) => {
                info!("cancelling request with ID: {}", id);
                handle.value().abort();
            }
        }''')]),
("r-cancel-map",A,0,[(P,'''        if let Some(handle) = self.0.get(id) {
            handle.abort();
            info!''','''        let found = self.0.get(id).map(|handle| handle.abort()).is_some();
        if found {
            info!''')]),
("r-router-match",A,0,[(R,RCALL,'''        match self.methods.get_mut(req.method()) {
            Some(handler) => handler.call(req),
            None => future::ready(Ok(method_not_found(req))).boxed(),
        }'''),(R,"/// Opaque JSON-RPC method handler.",'''fn method_not_found(req: Request) -> Option<Response> {
    let (method, id, _) = req.into_parts();
    let id = id?;
    let error = Error {
        data: Some(Value::String(method.into_owned())),
        ..Error::method_not_found()
    };
    Some(Response::from_error(id, error))
}

/// Opaque JSON-RPC method handler.''')]),
("r-router-contains",A,0,[(R,'''        self.methods.entry(name).or_insert_with(|| {
            let server = server.clone();''','''        if !self.methods.contains_key(name) {
            let server = server.clone();'''),(R,'''            BoxService::new(layer.layer(handler))
        });''','''            self.methods.insert(name, BoxService::new(layer.layer(handler)));
        }''')]),
("r-router-boxed",A,0,[(R,"                async move { callback.invoke(&*server, params).await }\n","                async move {\n                    let fut = callback.invoke(server.as_ref(), params);\n                    fut.await\n                }\n")]),
("r-handler-if",A,0,[(R,MCALL,'''        let is_notification = R::is_notification();
        if is_notification && id.is_some() {
            return future::ok(().into_response(id)).boxed();
        }
        if !is_notification && id.is_none() {
            return future::ok(None).boxed();
        }

        match P::from_params(params) {
            Ok(params) => {
                let fut = (self.f)(params);
                async move { Ok(fut.await.into_response(id)) }.boxed()
            }
            Err(err) => {
                let response = id.map(|id| Response::from_error(id, err));
                future::ok(response).boxed()
            }
        }''')]),
("r-handler-match-pair",A,0,[(R,MCALL.split("        let params",1)[0],'''        match (&id, R::is_notification()) {
            (Some(_), true) => return future::ok(().into_response(id)).boxed(),
            (None, false) => return future::ok(None).boxed(),
            (Some(_), false) | (None, true) => {}
        }

''')]),
("r-handler-rejected",A,0,[(R,MCALL,'''        if R::is_notification() != id.is_none() {
            let response = id.map(|id| Response::from_error(id, Error::invalid_request()));
            return future::ok(response).boxed();
        }

        P::from_params(params)
            .map(|params| (self.f)(params))
            .map_or_else(
                {
                    let id = id.clone();
                    move |err| future::ok(id.map(|id| Response::from_error(id, err))).boxed()
                },
                move |fut| fut.map(move |r| Ok(r.into_response(id))).boxed(),
            )''')]),
("r-into-response",A,0,[(R,INTO,'''        debug_assert!(id.is_some(), "Requests always contain an `id` field");
        let id = id?;
        let response = match self {
            Ok(result) => match serde_json::to_value(result) {
                Ok(value) => Response::from_ok(id, value),
                Err(err) => {
                    let mut error = Error::internal_error();
                    error.message = err.to_string().into();
                    Response::from_error(id, error)
                }
            },
            Err(error) => Response::from_error(id, error),
        };
        Some(response)''')]),
("r-into-response-map",A,0,[(R,INTO,'''        id.map(|id| match self.and_then(to_value) {
            Ok(value) => Response::from_ok(id, value),
            Err(error) => Response::from_error(id, error),
        })'''),(R,"mod private {","fn to_value<R: Serialize>(r: R) -> Result<Value, Error> {\n    serde_json::to_value(r).map_err(|e| Error {\n        code: ErrorCode::InternalError,\n        message: e.to_string().into(),\n        data: None,\n    })\n}\n\nmod private {")]),
("r-params-match",A,0,[(R,'''        if let Some(p) = params {
            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))
        } else {
            Err(Error::invalid_params("Missing params field"))
        }''','''        let p = params.ok_or_else(|| Error::invalid_params("Missing params field"))?;
        match serde_json::from_value(p) {
            Ok(params) => Ok((params,)),
            Err(e) => Err(Error::invalid_params(e.to_string())),
        }'''),(R,'''        if let Some(p) = params {
            Err(Error::invalid_params(format!("Unexpected params: {p}")))
        } else {
            Ok(())
        }''','''        match params {
            None => Ok(()),
            Some(p) => Err(Error::invalid_params(format!("Unexpected params: {}", p))),
        }''')]),
("r-service-call-match",A,0,[(S,'''        if self.state.get() == State::Exited {
            return future::err(ExitedError(())).boxed();
        }

        self.inner.call(req)''','''        match self.state.get() {
            State::Exited => Box::pin(async { Err(ExitedError(())) }),
            _ => self.inner.call(req),
        }''')]),
("r-service-ready",A,0,[(S,'''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),
        }''','''        if self.has_exited() {
            return Poll::Ready(Err(ExitedError(())));
        }
        self.inner.poll_ready(cx)'''),(S,"        if self.state.get() == State::Exited {\n            return","        if self.has_exited() {\n            return"),(S,"    /// Returns a reference to the inner server.","    fn has_exited(&self) -> bool {\n        matches!(self.state.get(), State::Exited)\n    }\n\n    /// Returns a reference to the inner server.")]),
("r-builder-fields",A,0,[(S,'''        let LspServiceBuilder {
            inner,
            state,
            socket,
            ..
        } = self;

        (LspService { inner, state }, socket)''','''        let service = LspService {
            inner: self.inner,
            state: self.state,
        };
        (service, self.socket)''')]),
("r-builder-register-late",A,0,[(S,'''        LspServiceBuilder {
            inner: crate::generated::register_lsp_methods(
                inner,
                state.clone(),
                pending.clone(),
                client,
            ),
            state,''','''        let inner = crate::generated::register_lsp_methods(inner, Arc::clone(&state), Arc::clone(&pending), client);
        LspServiceBuilder {
            inner,
            state,''')]),
("r-state-transition",A,0,[(ST,'''        let _ = self
            .0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);''','''        if self
            .0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::Relaxed)
            .is_err()
        {
            tracing::debug!("state has changed in the meantime");
        }''')]),
("r-state-fetch-update",A,0,[(ST,'''        let _ = self
            .0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);''','''        let (from, to) = (from as u8, to as u8);
        let _ = self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |cur| (cur == from).then_some(to));''')]),
("r-state-from",A,0,[(ST,'''        match self.0.load(Ordering::SeqCst) {
            0 => State::Uninitialized,
            1 => State::Initializing,
            2 => State::Initialized,
            3 => State::ShutDown,
            4 => State::Exited,
            _ => unreachable!(),
        }''','''        const ALL: [State; 5] = [State::Uninitialized, State::Initializing, State::Initialized, State::ShutDown, State::Exited];
        let raw = self.0.load(Ordering::SeqCst);
        match ALL.iter().find(|s| **s as u8 == raw) {
            Some(state) => *state,
            None => unreachable!(),
        }''')]),
("r-state-consts",A,0,[(ST,'''            0 => State::Uninitialized,
            1 => State::Initializing,
            2 => State::Initialized,
            3 => State::ShutDown,
            4 => State::Exited,
            _ => unreachable!(),''','''            x if x == State::Uninitialized as u8 => State::Uninitialized,
            x if x == State::Initializing as u8 => State::Initializing,
            x if x == State::Initialized as u8 => State::Initialized,
            x if x == State::ShutDown as u8 => State::ShutDown,
            _ => State::Exited,''')]),
("r-state-acqrel",A,0,[(ST,"self.0.store(state as u8, Ordering::SeqCst);","self.0.store(state as u8, Ordering::Release);"),(ST,"match self.0.load(Ordering::SeqCst) {","match self.0.load(Ordering::Acquire) {")]),
("r-macro-layer",A,0,[(MC,'''            let layer = match &rpc_name[..] {
                "initialize" => quote! { layers::Initialize::new(state.clone(), pending.clone()) },
                "shutdown" => quote! { layers::Shutdown::new(state.clone(), pending.clone()) },
                _ => quote! { layers::Normal::new(state.clone(), pending.clone()) },
            };''','''            let kind = match rpc_name.as_str() {
                "initialize" => quote! { Initialize },
                "shutdown" => quote! { Shutdown },
                _ => quote! { Normal },
            };
            let layer = quote! { layers::#kind::new(state.clone(), pending.clone()) };''')]),
("r-macro-order",A,0,[(MC,'''                #route_registrations

                let p = pending.clone();''','''                let p = pending.clone();'''),(MC,'''                router.method(
                    "exit",
                    |_: &S| std::future::ready(()),
                    layers::Exit::new(state.clone(), pending, client.clone()),
                );
''','''                router.method(
                    "exit",
                    |_: &S| std::future::ready(()),
                    layers::Exit::new(state.clone(), pending.clone(), client.clone()),
                );
                #route_registrations
''')]),
("r-macro-cancel-inline",A,0,[(MC,'''            fn cancel_request(params: CancelParams, p: &Pending) -> Ready<()> {
                p.cancel(&params.id.into());
                std::future::ready(())
            }

''',''),(MC,"move |_: &S, params| cancel_request(params, &p),","move |_: &S, params: CancelParams| {\n                        let id = params.id.into();\n                        p.cancel(&id);\n                        std::future::ready(())\n                    },")]),
("r-macro-handlers",A,0,[(MC,'''                    async fn #handler<S: #trait_name>(server: &S, params: #params) -> #result {
                        server.#handler(params).await
                    }''','''                    async fn #handler<S: #trait_name>(server: &S, params: #params) -> #result {
                        let result = server.#handler(params).await;
                        result
                    }''')]),
("r-id-from",A,0,[(Q,"    pub fn id(&self) -> Option<&Id> {\n        self.id.as_ref()\n    }","    pub fn id(&self) -> Option<&Id> {\n        match &self.id {\n            Some(id) => Some(id),\n            None => None,\n        }\n    }")]),
("r-response-ctor",A,0,[(RS,"            Ok(result) => Response::from_ok(id, result),","            Ok(value) => Response {\n                jsonrpc: Version,\n                kind: Kind::Ok { result: value },\n                id,\n            },")]),
("r-layer-generic",A,0,[(L,'''        NormalService {
            inner: Cancellable::new(inner, self.pending.clone()),
            state: self.state.clone(),
        }''','''        let Normal { state, pending } = self;
        let inner = Cancellable::new(inner, Arc::clone(pending));
        NormalService {
            state: Arc::clone(state),
            inner,
        }''')]),
("r-normal-dispatch-first",A,0,[(L,CALLN,'''        let cur_state = self.state.get();
        let initialized = cur_state == State::Initialized;
        if initialized {
            self.inner.call(req)
        } else {
            let id = req.id().cloned();
            drop(req);
            Box::pin(future::ready(Ok(not_initialized_response(id, cur_state))))
        }''')]),
("r-cancel-all-keys",A,0,[(P,ALL,"        let ids: Vec<Id> = self.0.iter().map(|e| e.key().clone()).collect();\n        for id in ids {\n            if let Some((_, handle)) = self.0.remove(&id) {\n                handle.abort();\n            }\n        }")]),
("r-cancel-all-clone",A,0,[(P,ALL,"        let handles: Vec<_> = self.0.iter().map(|e| e.value().clone()).collect();\n        for handle in &handles {\n            handle.abort();\n        }")]),
("r-cancel-all-while",A,0,[(P,ALL,"        let mut entries = self.0.iter();\n        while let Some(entry) = entries.next() {\n            entry.abort();\n        }")]),
("cancel-all-break","P14",1,[(P,ALL,"        for entry in self.0.iter() {\n            entry.abort();\n            if matches!(entry.key(), Id::Null) {\n                break;\n            }\n        }")]),
("cancel-all-skip","P14",1,[(P,ALL,"        for entry in self.0.iter().skip(1) {\n            entry.abort();\n        }")]),
("cancel-all-if","P14",1,[(P,ALL,"        for entry in self.0.iter() {\n            if let Id::Number(_) = entry.key() {\n                entry.abort();\n            }\n        }")]),
("cancel-all-for-each-if","P14",1,[(P,ALL,"        self.0.iter().for_each(|entry| {\n            if let Id::Number(_) = entry.key() {\n                entry.abort();\n            }\n        });")]),
("cancel-all-remove-only","P14",1,[(P,ALL,"        let ids: Vec<Id> = self.0.iter().map(|e| e.key().clone()).collect();\n        for id in ids {\n            self.0.remove(&id);\n        }")]),
("cancel-all-clear","P14",1,[(P,ALL,"        self.0.clear();")]),
]
M.append(('r-state-index', 'P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P23 P24 P28', 0, [('src/service/state.rs', '        match self.0.load(Ordering::SeqCst) {\n            0 => State::Uninitialized,\n            1 => State::Initializing,\n            2 => State::Initialized,\n            3 => State::ShutDown,\n            4 => State::Exited,\n            _ => unreachable!(),\n        }', '        const ALL: [State; 5] = [State::Uninitialized, State::Initializing, State::Initialized, State::ShutDown, State::Exited];\n        ALL[self.0.load(Ordering::SeqCst) as usize]')]))
M.append(('r-state-table', 'P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P23 P24 P28', 0, [('src/service/state.rs', '        match self.0.load(Ordering::SeqCst) {\n            0 => State::Uninitialized,\n            1 => State::Initializing,\n            2 => State::Initialized,\n            3 => State::ShutDown,\n            4 => State::Exited,\n            _ => unreachable!(),\n        }', '        static ALL: &[State] = &[State::Uninitialized, State::Initializing, State::Initialized, State::ShutDown, State::Exited];\n        match ALL.get(usize::from(self.0.load(Ordering::SeqCst))) {\n            Some(state) => *state,\n            None => unreachable!("no such state"),\n        }')]))
M.append(('r-state-names', 'P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P23 P24 P28', 0, [('src/service/state.rs', '        match self.0.load(Ordering::SeqCst) {\n            0 => State::Uninitialized,\n            1 => State::Initializing,\n            2 => State::Initialized,\n            3 => State::ShutDown,\n            4 => State::Exited,\n            _ => unreachable!(),\n        }', '        const UNINITIALIZED: u8 = State::Uninitialized as u8;\n        const INITIALIZING: u8 = State::Initializing as u8;\n        const INITIALIZED: u8 = State::Initialized as u8;\n        const SHUT_DOWN: u8 = State::ShutDown as u8;\n        const EXITED: u8 = State::Exited as u8;\n        match self.0.load(Ordering::SeqCst) {\n            UNINITIALIZED => State::Uninitialized,\n            INITIALIZING => State::Initializing,\n            INITIALIZED => State::Initialized,\n            SHUT_DOWN => State::ShutDown,\n            EXITED => State::Exited,\n            _ => unreachable!(),\n        }')]))
