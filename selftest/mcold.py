# Edits that keep the behaviour, over parts that the other lists hardly touch, and over the structure of the crate.
ALL=" ".join("P%02d"%i for i in range(1,37))
CO="src/codec.rs"; RQ="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; ER="src/jsonrpc/error.rs"; JR="src/jsonrpc.rs"
RO="src/jsonrpc/router.rs"; SV="src/service.rs"; CL="src/service/client.rs"; PR="src/service/client/progress.rs"
SO="src/service/client/socket.rs"; LA="src/service/layers.rs"; ST="src/service/state.rs"; PE="src/service/pending.rs"
TR="src/transport.rs"; MA="tower-lsp-macros/src/lib.rs"; LI="src/lib.rs"
M=[
# codec
("r-co-from-macro",ALL,0,[(CO,'''impl From<serde_json::Error> for ParseError {
    fn from(error: serde_json::Error) -> Self {
        ParseError::Body(error)
    }
}

impl From<IoError> for ParseError {
    fn from(error: IoError) -> Self {
        ParseError::Encode(error)
    }
}
''','''macro_rules! from_error {
    ($($t:ty => $v:ident),*) => {
        $(impl From<$t> for ParseError {
            fn from(error: $t) -> Self {
                ParseError::$v(error)
            }
        })*
    };
}

from_error!(serde_json::Error => Body, IoError => Encode);
''')]),
("r-co-source-deref",ALL,0,[(CO,'''        match *self {
            ParseError::Body(ref e) => Some(e),
            ParseError::Encode(ref e) => Some(e),
            ParseError::InvalidContentLength(ref e) => Some(e),
            ParseError::Utf8(ref e) => Some(e),
            _ => None,
        }''','''        match self {
            Self::Body(e) => Some(e),
            Self::Encode(e) => Some(e),
            Self::InvalidContentLength(e) => Some(e),
            Self::Utf8(e) => Some(e),
            Self::Headers(_) | Self::InvalidContentType | Self::MissingContentLength => None,
        }''')]),
("r-co-default-derive",ALL,0,[(CO,'''        LanguageServerCodec {
            content_len: None,
            _marker: PhantomData,
        }''','''        Self {
            content_len: Option::default(),
            _marker: PhantomData::default(),
        }''')]),
("r-co-map-err",ALL,0,[(CO,'''        let msg = serde_json::to_string(&item)?;''','''        let msg = serde_json::to_string(&item).map_err(ParseError::Body)?;''')]),
("r-co-frame-fn",ALL,0,[(CO,'''        // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
        // the length of the message, and the message body.
        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);
        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
        writer.flush()?;

        Ok(())''','''        write_frame(dst, &msg)'''),(CO,'''/// Encodes and decodes Language Server Protocol messages.
''','''/// Writes the header and the body of a message.
fn write_frame(dst: &mut BytesMut, msg: &str) -> Result<(), ParseError> {
    let len = msg.len();
    // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
    // the length of the message, and the message body.
    dst.reserve(len + number_of_digits(len) + 20);
    let mut writer = dst.writer();
    write!(writer, "Content-Length: {len}\\r\\n\\r\\n{msg}")?;
    writer.flush()?;
    Ok(())
}

/// Encodes and decodes Language Server Protocol messages.
''')]),
# requests
("r-rq-build-let",ALL,0,[(RQ,'''        RequestBuilder {
            method: method.into(),
            params: None,
            id: None,
        }''','''        let method: Cow<'static, str> = method.into();
        RequestBuilder { id: None, params: None, method }''')]),
("r-rq-common",ALL,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: R::METHOD.into(),
            params: Some(serde_json::to_value(params).unwrap()),
            id: Some(id),
        }''','''        Request::of(R::METHOD, params, Some(id))'''),(RQ,'''        Request {
            jsonrpc: Version,
            method: N::METHOD.into(),
            params: Some(serde_json::to_value(params).unwrap()),
            id: None,
        }''','''        Request::of(N::METHOD, params, None)'''),(RQ,'''    /// Returns the name of the method to be invoked.
''','''    fn of<P: Serialize>(method: &'static str, params: P, id: Option<Id>) -> Self {
        let params = serde_json::to_value(params).unwrap();
        Request {
            jsonrpc: Version,
            method: Cow::Borrowed(method),
            params: Some(params),
            id,
        }
    }

    /// Returns the name of the method to be invoked.
''')]),
("r-rq-via-builder",ALL,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: N::METHOD.into(),
            params: Some(serde_json::to_value(params).unwrap()),
            id: None,
        }''','''        Request::build(N::METHOD)
            .params(serde_json::to_value(params).unwrap())
            .finish()''')]),
("r-rq-builder-wraps",ALL,0,[(RQ,'''        Request {
            jsonrpc: Version,
            method: self.method,
            params: self.params,
            id: self.id,
        }''','''        let RequestBuilder { method, params, id } = self;
        Request {
            method,
            id,
            params,
            jsonrpc: Version,
        }''')]),
("r-rq-id-replace",ALL,0,[(RQ,'''        self.id = Some(id.into());
        self
''','''        self.id.replace(id.into());
        self
'''),(RQ,'''        self.params = Some(params.into());
        self
''','''        let _ = self.params.insert(params.into());
        self
''')]),
("r-rq-display-string",ALL,0,[(RQ,'''                let s = str::from_utf8(buf).map_err(io_error)?;
                self.inner.write_str(s).map_err(io_error)?;
                Ok(buf.len())''','''                match str::from_utf8(buf) {
                    Ok(s) => match self.inner.write_str(s) {
                        Ok(()) => Ok(buf.len()),
                        Err(e) => Err(io_error(e)),
                    },
                    Err(e) => Err(io_error(e)),
                }''')]),
("r-rq-into-parts-let",ALL,0,[(RQ,'''        (self.method, self.id, self.params)''','''        let Request { method, params, id, .. } = self;
        (method, id, params)''')]),
# responses, errors
("r-rs-parts",ALL,0,[(RS,'''        match body {
            Ok(result) => Response::from_ok(id, result),
            Err(error) => Response::from_error(id, error),
        }''','''        let kind = match body {
            Ok(result) => Kind::Ok { result },
            Err(error) => Kind::Err { error },
        };
        Response {
            jsonrpc: Version,
            kind,
            id,
        }''')]),
("r-rs-is-error",ALL,0,[(RS,'''        !self.is_ok()''','''        matches!(self.kind, Kind::Err { .. })''')]),
("r-rs-into-parts-let",ALL,0,[(RS,'''        match self.kind {
            Kind::Ok { result } => (self.id, Ok(result)),
            Kind::Err { error } => (self.id, Err(error)),
        }''','''        let Response { kind, id, .. } = self;
        let body = match kind {
            Kind::Err { error } => Err(error),
            Kind::Ok { result } => Ok(result),
        };
        (id, body)''')]),
("r-er-struct",ALL,0,[(ER,'''    pub const fn invalid_request() -> Self {
        Error::new(ErrorCode::InvalidRequest)
    }''','''    pub const fn invalid_request() -> Self {
        const CODE: ErrorCode = ErrorCode::InvalidRequest;
        Error {
            code: CODE,
            message: Cow::Borrowed(CODE.description()),
            data: None,
        }
    }''')]),
("r-er-codes-const",ALL,0,[(ER,'''            ErrorCode::ParseError => -32700,''','''            ErrorCode::ParseError => PARSE_ERROR,'''),(ER,'''            -32700 => ErrorCode::ParseError,''','''            PARSE_ERROR => ErrorCode::ParseError,'''),(ER,'''impl ErrorCode {
''','''const PARSE_ERROR: i64 = -32700;

impl ErrorCode {
''')]),
("r-er-params-struct-update",ALL,0,[(ER,'''        Error {
            code: ErrorCode::InvalidParams,
            message: message.into(),
            data: None,
        }''','''        let mut error = Error::new(ErrorCode::InvalidParams);
        error.message = message.into();
        error''')]),
("r-er-code-if",ALL,0,[(ER,'''        code.code()
''','''        if let ErrorCode::ServerError(code) = code {
            return code;
        }
        code.code()
''')]),
# router
("r-ro-match",ALL,0,[(RO,'''        if let Some(handler) = self.methods.get_mut(req.method()) {
            handler.call(req)
        } else {
            let (method, id, _) = req.into_parts();
            future::ok(id.map(|id| {
                let mut error = Error::method_not_found();
                error.data = Some(Value::from(method));
                Response::from_error(id, error)
            }))
            .boxed()
        }''','''        match self.methods.get_mut(req.method()) {
            Some(handler) => handler.call(req),
            None => future::ready(Ok(unknown_method(req))).boxed(),
        }'''),(RO,'''/// Opaque JSON-RPC method handler.
''','''/// Answers a request for a method that nobody has registered.
fn unknown_method(req: Request) -> Option<Response> {
    let (method, id, _) = req.into_parts();
    let id = id?;
    let error = Error {
        data: Some(Value::from(method)),
        ..Error::method_not_found()
    };
    Some(Response::from_error(id, error))
}

/// Opaque JSON-RPC method handler.
''')]),
("r-ro-async-call",ALL,0,[(RO,'''        (self.f)(params)
            .map(move |r| Ok(r.into_response(id)))
            .boxed()''','''        let fut = (self.f)(params);
        Box::pin(async move {
            let result = fut.await;
            Ok(result.into_response(id))
        })''')]),
("r-ro-kind-if",ALL,0,[(RO,'''        match id {
            Some(_) if R::is_notification() => return future::ok(().into_response(id)).boxed(),
            None if !R::is_notification() => return future::ok(None).boxed(),
            _ => {}
        }
''','''        let has_id = id.is_some();
        if has_id == R::is_notification() {
            let refused = if has_id { ().into_response(id) } else { None };
            return future::ok(refused).boxed();
        }
''')]),
("r-ro-method-arc-clone",ALL,0,[(RO,'''        let server = &self.server;
        self.methods.entry(name).or_insert_with(|| {
            let server = server.clone();
            let handler''','''        let server = Arc::clone(&self.server);
        self.methods.entry(name).or_insert_with(move || {
            let handler''')]),
("r-ro-method-contains",ALL,0,[(RO,'''        let server = &self.server;
        self.methods.entry(name).or_insert_with(|| {
            let server = server.clone();
            let handler = MethodHandler::new(move |params| {
                let callback = callback.clone();
                let server = server.clone();
                async move { callback.invoke(&*server, params).await }
            });

            BoxService::new(layer.layer(handler))
        });

        self''','''        if self.methods.contains_key(name) {
            return self;
        }

        let server = self.server.clone();
        let handler = MethodHandler::new(move |params| {
            let callback = callback.clone();
            let server = server.clone();
            async move { callback.invoke(&*server, params).await }
        });
        self.methods
            .insert(name, BoxService::new(layer.layer(handler)));

        self''')]),
("r-ro-from-params-match",ALL,0,[(RO,'''        if let Some(p) = params {
            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))
        } else {
            Err(Error::invalid_params("Missing params field"))
        }''','''        let p = params.ok_or_else(|| Error::invalid_params("Missing params field"))?;
        match serde_json::from_value::<P>(p) {
            Ok(params) => Ok((params,)),
            Err(e) => Err(Error::invalid_params(e.to_string())),
        }''')]),
("r-ro-into-response-q",ALL,0,[(RO,'''        if let Some(id) = id {
            let result = self.and_then(|r| {
                serde_json::to_value(r).map_err(|e| Error {
                    code: ErrorCode::InternalError,
                    message: e.to_string().into(),
                    data: None,
                })
            });
            Some(Response::from_parts(id, result))
        } else {
            None
        }''','''        let id = id?;
        let result = match self {
            Ok(r) => serde_json::to_value(r).map_err(unserializable),
            Err(e) => Err(e),
        };
        Some(Response::from_parts(id, result))'''),(RO,'''mod private {
''','''fn unserializable(e: serde_json::Error) -> Error {
    Error {
        code: ErrorCode::InternalError,
        message: e.to_string().into(),
        data: None,
    }
}

mod private {
''')]),
("r-ro-invoke-let",ALL,0,[(RO,'''        self(server, params.0)''','''        let (params,) = params;
        (self)(server, params)''')]),
# service
("r-sv-build-steps",ALL,0,[(SV,'''        let (client, socket) = Client::new(state.clone());
        let inner = Router::new(init(client.clone()));
        let pending = Arc::new(Pending::new());

        LspServiceBuilder {
            inner: crate::generated::register_lsp_methods(
                inner,
                state.clone(),
                pending.clone(),
                client,
            ),
            state,
            pending,
            socket,
        }''','''        let pending = Arc::new(Pending::new());
        let (client, socket) = Client::new(Arc::clone(&state));
        let backend = init(client.clone());
        let router = Router::new(backend);
        let inner = crate::generated::register_lsp_methods(
            router,
            Arc::clone(&state),
            Arc::clone(&pending),
            client,
        );

        LspServiceBuilder {
            pending,
            state,
            inner,
            socket,
        }''')]),
("r-sv-new-inline",ALL,0,[(SV,'''        LspService::build(init).finish()''','''        let builder: LspServiceBuilder<S> = Self::build(init);
        builder.finish()''')]),
("r-sv-ready-if",ALL,0,[(SV,'''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),
        }''','''        if matches!(self.state.get(), State::Exited) {
            return Poll::Ready(Err(ExitedError(())));
        }
        self.inner.poll_ready(cx)''')]),
("r-sv-exited-helper",ALL,0,[(SV,'''            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),
        }''','''            State::Exited => Poll::Ready(Err(exited())),
            _ => self.inner.poll_ready(cx),
        }'''),(SV,'''            return future::err(ExitedError(())).boxed();''','''            return future::err(exited()).boxed();'''),(SV,'''/// A builder to customize the properties of an `LspService`.
///
''','''fn exited() -> ExitedError {
    ExitedError(())
}

/// A builder to customize the properties of an `LspService`.
///
''')]),
("r-sv-custom-let",ALL,0,[(SV,'''        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());
        self.inner.method(name, callback, layer);
        self''','''        let LspServiceBuilder {
            ref state,
            ref pending,
            ref mut inner,
            ..
        } = self;
        inner.method(
            name,
            callback,
            layers::Normal::new(Arc::clone(state), Arc::clone(pending)),
        );
        self''')]),
("r-sv-finish-fields",ALL,0,[(SV,'''        let LspServiceBuilder {
            inner,
            state,
            socket,
            ..
        } = self;

        (LspService { inner, state }, socket)''','''        let service = LspService {
            inner: self.inner,
            state: self.state,
        };

        (service, self.socket)''')]),
# client
("r-cl-new-reorder",ALL,0,[(CL,'''        let (tx, rx) = mpsc::channel(1);
        let pending = Arc::new(Pending::new());

        let client = Client {
            inner: Arc::new(ClientInner {
                tx,
                request_id: AtomicU32::new(0),
                pending: pending.clone(),
                state: state.clone(),
            }),
        };

        (client, ClientSocket { rx, pending, state })''','''        let pending = Arc::new(Pending::new());
        let (tx, rx) = mpsc::channel(1);
        let socket = ClientSocket {
            rx,
            pending: pending.clone(),
            state: state.clone(),
        };
        let inner = ClientInner {
            tx,
            pending,
            state,
            request_id: AtomicU32::default(),
        };

        (Client { inner: Arc::new(inner) }, socket)''')]),
("r-cl-close-let",ALL,0,[(CL,'''        self.inner.tx.clone().close_channel();''','''        let mut tx = self.inner.tx.clone();
        Sender::close_channel(&mut tx);''')]),
("r-cl-register-let",ALL,0,[(CL,'''        self.send_request::<RegisterCapability>(RegistrationParams { registrations })
            .await''','''        let params = RegistrationParams { registrations };
        let answer = self.send_request::<RegisterCapability>(params).await;
        answer''')]),
("r-cl-refresh-helper",ALL,0,[(CL,'''        self.send_request::<CodeLensRefresh>(()).await
    }''','''        self.refresh::<CodeLensRefresh>().await
    }'''),(CL,'''        self.send_request::<SemanticTokensRefresh>(()).await
    }''','''        self.refresh::<SemanticTokensRefresh>().await
    }'''),(CL,'''        self.send_request::<InlayHintRefreshRequest>(()).await
    }''','''        self.refresh::<InlayHintRefreshRequest>().await
    }'''),(CL,'''    async fn send_notification_unchecked<N>''','''    async fn refresh<R>(&self) -> jsonrpc::Result<()>
    where
        R: lsp_types::request::Request<Params = (), Result = ()>,
    {
        self.send_request::<R>(()).await
    }

    async fn send_notification_unchecked<N>''')]),
("r-cl-gate-helper",ALL,0,[(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked''','''        if self.is_open() {
            self.send_notification_unchecked'''),(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_request_unchecked''','''        if self.is_open() {
            self.send_request_unchecked'''),(CL,'''    async fn send_notification_unchecked<N>''','''    /// Whether the client may be sent anything but messages by now.
    fn is_open(&self) -> bool {
        match self.inner.state.get() {
            State::Initialized | State::ShutDown => true,
            State::Uninitialized | State::Initializing | State::Exited => false,
        }
    }

    async fn send_notification_unchecked<N>''')]),
("r-cl-message-helper",ALL,0,[(CL,'''        self.send_notification_unchecked::<ShowMessage>(ShowMessageParams {
            typ,
            message: message.to_string(),
        })
        .await;''','''        let message = format!("{message}");
        let params = ShowMessageParams { message, typ };
        self.send_notification_unchecked::<ShowMessage>(params).await''')]),
("r-cl-apply-default",ALL,0,[(CL,'''        self.send_request::<ApplyWorkspaceEdit>(ApplyWorkspaceEditParams { edit, label: None })
            .await''','''        let params = ApplyWorkspaceEditParams {
            label: Option::None,
            edit,
        };
        self.send_request::<ApplyWorkspaceEdit>(params).await''')]),
("r-cl-call-async-fn",ALL,0,[(CL,'''        let mut tx = self.inner.tx.clone();
        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));

        Box::pin(async move {
            if tx.send(req).await.is_err() {
                return Err(ExitedError(()));
            }

            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),
                None => Ok(None),
            }
        })''','''        let tx = self.inner.tx.clone();
        let waiter = match req.id() {
            Some(id) => Some(self.inner.pending.wait(id.clone())),
            None => None,
        };

        Box::pin(deliver(tx, req, waiter))'''),(CL,'''impl Service<Request> for Client {
''','''/// Sends a message and waits for the answer, if there is going to be one.
async fn deliver<W>(
    mut tx: Sender<Request>,
    req: Request,
    waiter: Option<W>,
) -> Result<Option<Response>, ExitedError>
where
    W: std::future::Future<Output = Response>,
{
    tx.send(req).await.map_err(|_| ExitedError(()))?;

    Ok(match waiter {
        Some(fut) => Some(fut.await),
        None => None,
    })
}

impl Service<Request> for Client {
''')]),
("r-cl-next-id-from",ALL,0,[(CL,'''        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);
        Id::Number(num as i64)''','''        Id::from(i64::from(
            self.inner.request_id.fetch_add(1, Ordering::SeqCst),
        ))''')]),
# progress
("r-pr-cancel-set",ALL,0,[(PR,'''        Progress {
            client: self.client,
            token: self.token,
            begin_msg: WorkDoneProgressBegin {
                cancellable: Some(true),
                ..self.begin_msg
            },
            _kind: PhantomData,
        }''','''        let Progress {
            client,
            token,
            mut begin_msg,
            ..
        } = self;
        begin_msg.cancellable = Some(true);
        Progress {
            client,
            token,
            begin_msg,
            _kind: PhantomData,
        }''')]),
("r-pr-retype",ALL,0,[(PR,'''        Progress {
            client: self.client,
            token: self.token,
            begin_msg: WorkDoneProgressBegin {
                percentage: Some(start_percentage),
                ..self.begin_msg
            },
            _kind: PhantomData,
        }''','''        let mut progress = self.retype::<Bounded, C>();
        progress.begin_msg.percentage = Some(start_percentage);
        progress'''),(PR,'''        Progress {
            client: self.client,
            token: self.token,
            begin_msg: WorkDoneProgressBegin {
                cancellable: Some(true),
                ..self.begin_msg
            },
            _kind: PhantomData,
        }''','''        let mut progress = self.retype::<B, Cancellable>();
        progress.begin_msg.cancellable = Some(true);
        progress'''),(PR,'''impl<B, C> Progress<B, C> {
''','''impl<B, C> Progress<B, C> {
    fn retype<D, E>(self) -> Progress<D, E> {
        Progress {
            client: self.client,
            token: self.token,
            begin_msg: self.begin_msg,
            _kind: PhantomData,
        }
    }

''')]),
("r-pr-send-helper",ALL,0,[(PR,'''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(report)),
            })
            .await;''','''        send(
            &self.client,
            self.token.clone(),
            WorkDoneProgress::Report(report),
        )
        .await;'''),(PR,'''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token,
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(
                    lsp_types::WorkDoneProgressEnd { message },
                )),
            })
            .await;''','''        let end = lsp_types::WorkDoneProgressEnd { message };
        send(&self.client, self.token, WorkDoneProgress::End(end)).await;'''),(PR,'''impl<B, C> OngoingProgress<B, C> {
    async fn send''','''async fn send(client: &Client, token: ProgressToken, step: WorkDoneProgress) {
    let value = ProgressParamsValue::WorkDone(step);
    client
        .send_notification::<ProgressNotification>(ProgressParams { token, value })
        .await;
}

impl<B, C> OngoingProgress<B, C> {
    async fn send''')]),
("r-pr-begin-destructure",ALL,0,[(PR,'''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Begin(self.begin_msg)),
            })
            .await;

        OngoingProgress {
            client: self.client,
            token: self.token,
            _kind: PhantomData,
        }''','''        let ongoing = OngoingProgress {
            client: self.client,
            token: self.token,
            _kind: PhantomData,
        };
        let begin = WorkDoneProgress::Begin(self.begin_msg);
        let params = ProgressParams {
            token: ongoing.token().clone(),
            value: ProgressParamsValue::WorkDone(begin),
        };
        ongoing
            .client
            .send_notification::<ProgressNotification>(params)
            .await;
        ongoing''')]),
("r-pr-report-let",ALL,0,[(PR,'''        self.send_progress_report(WorkDoneProgressReport {
            message: Some(message.into()),
            percentage: Some(percentage),
            ..Default::default()
        })
        .await;''','''        let mut report = WorkDoneProgressReport::default();
        report.percentage = Some(percentage);
        report.message = Some(message.into());
        self.send_progress_report(report).await''')]),
("r-pr-finish-map",ALL,0,[(PR,'''        self.finish_inner(Some(message.into())).await;''','''        let message: String = message.into();
        self.finish_inner(message.into()).await;''')]),
# loopback
("r-so-compose",ALL,0,[(SO,'''        let ClientSocket { rx, pending, state } = self;
        let state_ = state.clone();

        (
            RequestStream { rx, state: state_ },
            ResponseSink { pending, state },
        )''','''        let requests = RequestStream {
            rx: self.rx,
            state: Arc::clone(&self.state),
        };
        let responses = ResponseSink {
            state: self.state,
            pending: self.pending,
        };
        (requests, responses)''')]),
("r-so-ready-helper",ALL,0,[(SO,'''    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
    }''','''    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Poll::Ready(match self.state.get() {
            State::Exited => Err(ExitedError(())),
            _ => Ok(()),
        })
    }''')]),
("r-so-poll-next-mut",ALL,0,[(SO,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {
            self.rx.poll_next_unpin(cx)
        }''','''        let this = &mut *self;
        let over = this.rx.is_terminated() || this.state.get() == State::Exited;
        if over {
            return Poll::Ready(None);
        }
        Pin::new(&mut this.rx).poll_next(cx)''')]),
# layers
("r-la-init-swap",ALL,0,[(LA,'''        if self.state.get() == State::Uninitialized {
            self.state.set(State::Initializing);
            let state = self.state.clone();
            let fut = self.inner.call(req);
''','''        if let State::Uninitialized = self.state.get() {
            self.state.set(State::Initializing);
            let fut = self.inner.call(req);
            let state = Arc::clone(&self.state);
''')]),
("r-la-init-next",ALL,0,[(LA,'''                match &response {
                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),
                }
''','''                let succeeded = response.as_ref().map_or(false, Response::is_ok);
                let next = if succeeded {
                    State::Initialized
                } else {
                    State::Uninitialized
                };
                state.transition(State::Initializing, next);
''')]),
("r-la-refuse-helper",ALL,0,[(LA,'''            cur_state => {
                let (_, id, _) = req.into_parts();
                future::ok(not_initialized_response(id, cur_state)).boxed()
            }''','''            cur_state => refuse(req, cur_state),'''),(LA,'''fn not_initialized_response(''','''fn refuse(
    req: Request,
    state: State,
) -> BoxFuture<'static, Result<Option<Response>, ExitedError>> {
    let (_, id, _) = req.into_parts();
    future::ready(Ok(not_initialized_response(id, state))).boxed()
}

fn not_initialized_response(''')]),
("r-la-exit-log-last",ALL,0,[(LA,'''        info!("exit notification received, stopping");
        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();
        future::ok(None)''','''        self.state.set(State::Exited);
        self.client.close();
        self.pending.cancel_all();
        info!("exit notification received, stopping");
        future::ready(Ok(None))''')]),
("r-la-exit-ready",ALL,0,[(LA,'''        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }''','''        let exited = self.state.get() == State::Exited;
        Poll::Ready(if exited { Err(ExitedError(())) } else { Ok(()) })''')]),
("r-la-cancellable-if",ALL,0,[(LA,'''        match req.id().cloned() {
            Some(id) => self.pending.execute(id, self.inner.call(req)).boxed(),
            None => self.inner.call(req).boxed(),
        }''','''        let id = req.id().cloned();
        let fut = self.inner.call(req);
        if let Some(id) = id {
            self.pending.execute(id, fut).boxed()
        } else {
            fut.boxed()
        }''')]),
("r-la-not-init-match",ALL,0,[(LA,'''    let id = id?;
    let error = match server_state {
        State::Uninitialized | State::Initializing => not_initialized_error(),
        _ => Error::invalid_request(),
    };

    Some(Response::from_error(id, error))''','''    id.map(|id| {
        let too_early = server_state == State::Uninitialized || server_state == State::Initializing;
        Response::from_error(
            id,
            if too_early {
                not_initialized_error()
            } else {
                Error::invalid_request()
            },
        )
    })''')]),
# state
("r-st-transition-is-ok",ALL,0,[(ST,'''        let _ = self
            .0
            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst);''','''        let (from, to) = (from as u8, to as u8);
        self.0
            .compare_exchange(from, to, Ordering::AcqRel, Ordering::Acquire)
            .ok();''')]),
("r-st-get-chain",ALL,0,[(ST,'''        match self.0.load(Ordering::SeqCst) {
            0 => State::Uninitialized,
            1 => State::Initializing,
            2 => State::Initialized,
            3 => State::ShutDown,
            4 => State::Exited,
            _ => unreachable!(),
        }''','''        State::from_u8(self.0.load(Ordering::SeqCst))'''),(ST,'''/// Atomic value which''','''impl State {
    fn from_u8(raw: u8) -> Self {
        const UNINITIALIZED: u8 = State::Uninitialized as u8;
        const INITIALIZING: u8 = State::Initializing as u8;
        const INITIALIZED: u8 = State::Initialized as u8;
        const SHUT_DOWN: u8 = State::ShutDown as u8;
        const EXITED: u8 = State::Exited as u8;
        match raw {
            UNINITIALIZED => State::Uninitialized,
            INITIALIZING => State::Initializing,
            INITIALIZED => State::Initialized,
            SHUT_DOWN => State::ShutDown,
            EXITED => State::Exited,
            other => unreachable!("unknown state {other}"),
        }
    }
}

/// Atomic value which''')]),
# macros and the trait
("r-ma-layer-helper",ALL,0,[(MA,'''            let layer = match &rpc_name[..] {
                "initialize" => quote! { layers::Initialize::new(state.clone(), pending.clone()) },
                "shutdown" => quote! { layers::Shutdown::new(state.clone(), pending.clone()) },
                _ => quote! { layers::Normal::new(state.clone(), pending.clone()) },
            };
''','''            let kind = match rpc_name.as_str() {
                "initialize" => quote! { Initialize },
                "shutdown" => quote! { Shutdown },
                _ => quote! { Normal },
            };
            let layer = quote! { layers::#kind::new(state.clone(), pending.clone()) };
''')]),
("r-ma-exit-first",ALL,0,[(MA,'''                #route_registrations

                let p = pending.clone();''','''                router.method(
                    "exit",
                    |_: &S| std::future::ready(()),
                    layers::Exit::new(state.clone(), pending.clone(), client.clone()),
                );

                #route_registrations

                let p = pending.clone();'''),(MA,'''                router.method(
                    "exit",
                    |_: &S| std::future::ready(()),
                    layers::Exit::new(state.clone(), pending, client.clone()),
                );

                router
''','''                router
''')]),
("r-ma-chain",ALL,0,[(MA,'''                    tower::layer::util::Identity::new(),
                );
                router.method(
                    "exit",''','''                    tower::layer::util::Identity::new(),
                )
                .method(
                    "exit",''')]),
("r-ma-cancel-async",ALL,0,[(MA,'''            fn cancel_request(params: CancelParams, p: &Pending) -> Ready<()> {
                p.cancel(&params.id.into());
                std::future::ready(())
            }''','''            fn cancel_request(params: CancelParams, p: &Pending) -> Ready<()> {
                let CancelParams { id } = params;
                let id = crate::jsonrpc::Id::from(id);
                p.cancel(&id);
                std::future::ready(())
            }''')]),
("r-li-default-body",ALL,0,[(LI,'''        error!("Got a textDocument/completion request, but it is not implemented");
        Err(Error::method_not_found())''','''        let refused = Error::method_not_found();
        error!("Got a textDocument/completion request, but it is not implemented");
        return Err(refused);''')]),
("r-li-default-helper",ALL,0,[(LI,'''        error!("Got a textDocument/hover request, but it is not implemented");
        Err(Error::method_not_found())''','''        not_implemented("textDocument/hover")'''),(LI,'''/// Trait implemented by language server backends.
''','''fn not_implemented<T>(method: &str) -> Result<T> {
    error!("Got a {} request, but it is not implemented", method);
    Err(Error::method_not_found())
}

/// Trait implemented by language server backends.
''')]),
# transport
("r-tr-new-reorder",ALL,0,[(TR,'''            max_concurrency: DEFAULT_MAX_CONCURRENCY,''','''            max_concurrency: Self::LIMIT,'''),(TR,'''    /// Sets the server concurrency limit to `max`.''','''    const LIMIT: usize = DEFAULT_MAX_CONCURRENCY;

    /// Sets the server concurrency limit to `max`.''')]),
]
