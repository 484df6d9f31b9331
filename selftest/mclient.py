CL="src/service/client.rs"; PE="src/service/client/pending.rs"; SO="src/service/client/socket.rs"
ALLC="P15 P16 P17 P18 P19 P29 P30"
NEXT='''        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);
        Id::Number(num as i64)'''
M=[
# P15
("id-load-store","P15",1,[(CL,NEXT,'''        let num = self.inner.request_id.load(Ordering::SeqCst);
        self.inner.request_id.store(num + 1, Ordering::SeqCst);
        Id::Number(num as i64)''')]),
("id-narrow","P15",1,[(CL,"Id::Number(num as i64)","Id::Number((num as u16) as i64)")]),
("id-const-add0","P15",1,[(CL,"fetch_add(1, Ordering::Relaxed)","fetch_add(0, Ordering::Relaxed)")]),
("id-peek","P15",1,[(CL,"let id = self.next_request_id();\n","let id = self.inner.request_id.load(Ordering::SeqCst).to_string().into();\n        self.next_request_id();\n")]),
("id-mask","P15",1,[(CL,"Id::Number(num as i64)","Id::Number((num & 0xffff) as i64)")]),
("id-reset-on-unsent","P15",1,[(CL,'            Ok(None) | Err(_) => return Err(Error::internal_error()),','            Ok(None) | Err(_) => {\n                self.inner.request_id.fetch_sub(1, Ordering::Relaxed);\n                return Err(Error::internal_error());\n            }')]),
("id-hash","P15",1,[(CL,"Id::Number(num as i64)","Id::Number((num % 1000) as i64)")]),
("r-id-seqcst",ALLC,0,[(CL,"fetch_add(1, Ordering::Relaxed)","fetch_add(1, Ordering::SeqCst)")]),
("r-id-from",ALLC,0,[(CL,"Id::Number(num as i64)","Id::from(i64::from(num))")]),
("r-id-string","P15 P16",0,[(CL,"Id::Number(num as i64)","Id::String(num.to_string())")]),
("r-id-plus1",ALLC,0,[(CL,"Id::Number(num as i64)","Id::Number(num as i64 + 1)")]),
("r-id-inline",ALLC,0,[(CL,"let id = self.next_request_id();\n","let id = Id::Number(i64::from(self.inner.request_id.fetch_add(1, Ordering::AcqRel)));\n")]),
# P16
("pend-remove-all","P16",1,[(PE,"1 => entry.remove().remove(0),\n                        _ => entry.get_mut().remove(0),","_ => entry.remove().remove(0),\n                        #[allow(unreachable_patterns)]\n                        1 => entry.get_mut().remove(0),")]),
("pend-last","P16",1,[(PE,"_ => entry.get_mut().remove(0),","_ => entry.get_mut().pop().unwrap(),")]),
("pend-keep","P16",1,[(PE,"                        1 => entry.remove().remove(0),\n","")]),
("pend-2","P16",1,[(PE,"1 => entry.remove().remove(0)","1 | 2 => entry.remove().remove(0)")]),
("pend-overwrite","P16",1,[(PE,'''                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);''','''                entry.insert(vec![tx]);''')]),
("pend-late-wait","P16",1,[(CL,'''        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));
''','''        let id = req.id().cloned();
        let pending = self.inner.pending.clone();
'''),(CL,'''            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),''','''            match id {
                Some(id) => Ok(Some(pending.wait(id).await)),''')]),
("pend-unwrap","P16",1,[(PE,'''                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }''','''                    tx.send(r).unwrap();''')]),
("pend-null","P16",1,[(PE,'Id::Null => warn!("received response with request ID of `null`, ignoring")','Id::Null => unreachable!("received response with request ID of `null`, ignoring")')]),
("pend-stray","P16",1,[(PE,'Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id)','Entry::Vacant(_) => panic!("received response with unknown request ID: {}", id)')]),
("pend-wrong-key","P16",1,[(CL,"req.id().cloned().map(|id| self.inner.pending.wait(id))","req.id().cloned().map(|_| self.inner.pending.wait(Id::Number(self.inner.request_id.load(Ordering::SeqCst) as i64 - 1)))")]),
("r-pend-if",ALLC,0,[(PE,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let tx = entry.get_mut().remove(0);
                    if entry.get().is_empty() {
                        entry.remove();
                    }
''')]),
("r-pend-deque",ALLC,0,[(PE,"DashMap<Id, Vec<oneshot::Sender<Response>>>","DashMap<Id, std::collections::VecDeque<oneshot::Sender<Response>>>"),(PE,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let tx = match entry.get_mut().pop_front() {
                        Some(tx) => tx,
                        None => return,
                    };
                    if entry.get().is_empty() {
                        entry.remove();
                    }
'''),(PE,'''        match self.0.entry(id) {
            Entry::Vacant(entry) => {
                entry.insert(vec![tx]);
            }
            Entry::Occupied(mut entry) => {
                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);
            }
        }''','''        self.0.entry(id).or_default().push_back(tx);''')]),
("r-pend-ordefault",ALLC,0,[(PE,'''        match self.0.entry(id) {
            Entry::Vacant(entry) => {
                entry.insert(vec![tx]);
            }
            Entry::Occupied(mut entry) => {
                let txs = entry.get_mut();
                txs.reserve(1); // We assume concurrent waits are rare, so reserve one by one.
                txs.push(tx);
            }
        }''','''        self.0.entry(id).or_insert_with(Vec::new).push(tx);''')]),
("r-pend-helper",ALLC,0,[(PE,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };

                    if let Err(r) = tx.send(r) {''','''                    let last = entry.get().len() <= 1;
                    let tx = if last { entry.remove().swap_remove(0) } else { entry.get_mut().remove(0) };
                    let sent = tx.send(r);
                    if let Err(r) = sent {''')]),
("r-pend-iflet",ALLC,0,[(PE,'''            id => match self.0.entry(id.clone()) {''','''            Id::Number(_) | Id::String(_) => match self.0.entry(r.id().to_owned()) {'''),(PE,'unknown request ID: {}", id)','unknown request ID: {}", r.id())')]),
# P17
("gate-shutdown","P17",1,[(CL,"if let State::Initialized | State::ShutDown = self.inner.state.get() {\n            self.send_request_unchecked","if let State::Initialized | State::Initializing = self.inner.state.get() {\n            self.send_request_unchecked")]),
("gate-pubdiag","P17",1,[(CL,"self.send_notification::<PublishDiagnostics>","self.send_notification_unchecked::<PublishDiagnostics>")]),
("gate-log","P17",1,[(CL,"self.send_notification_unchecked::<LogMessage>","self.send_notification::<LogMessage>")]),
("gate-err","P17",1,[(CL,"Err(jsonrpc::not_initialized_error())","Err(Error::internal_error())")]),
("gate-showdoc","P17",1,[(CL,"self.send_request::<ShowDocument>","self.send_request_unchecked::<ShowDocument>")]),
("gate-not-exited","P17",1,[(CL,"if let State::Initialized | State::ShutDown = self.inner.state.get() {\n            self.send_notification_unchecked","if !matches!(self.inner.state.get(), State::Uninitialized | State::Initializing) {\n            self.send_notification_unchecked")]),
("r-gate-matches",ALLC,0,[(CL,"if let State::Initialized | State::ShutDown = self.inner.state.get() {\n            self.send_notification_unchecked","let state = self.inner.state.get();\n        if state == State::Initialized || state == State::ShutDown {\n            self.send_notification_unchecked")]),
("r-gate-helper",ALLC,0,[(CL,"if let State::Initialized | State::ShutDown = self.inner.state.get() {\n            self.send_request_unchecked","if self.ready() {\n            self.send_request_unchecked"),(CL,"impl Client {\n    pub fn next_request_id","impl Client {\n    fn ready(&self) -> bool {\n        matches!(self.inner.state.get(), State::Initialized | State::ShutDown)\n    }\n\n    pub fn next_request_id") if False else (CL,"    pub fn next_request_id(","    fn ready(&self) -> bool {\n        matches!(self.inner.state.get(), State::Initialized | State::ShutDown)\n    }\n\n    /// Ids.\n    pub fn next_request_id(")]),
# P18
("swap-tokens","P18",1,[(CL,"self.send_request::<SemanticTokensRefresh>","self.send_request::<lsp_types::request::CodeLensRefresh>")]),
("no-version","P18",1,[(CL,"uri, diags, version,\n","uri, diags, version.filter(|v| *v > 0),\n")]),
("no-actions","P18",1,[(CL,"            actions,\n        })","            actions: actions.filter(|a| !a.is_empty()),\n        })")]),
("message-trim","P18",1,[(CL,'''self.send_notification_unchecked::<LogMessage>(LogMessageParams {
            typ,
            message: message.to_string(),''','''self.send_notification_unchecked::<LogMessage>(LogMessageParams {
            typ,
            message: format!("{}\\n", message),''')]),
("typ-const","P18",1,[(CL,'''self.send_notification_unchecked::<ShowMessage>(ShowMessageParams {
            typ,''','''self.send_notification_unchecked::<ShowMessage>(ShowMessageParams {
            typ: if typ == MessageType::LOG { MessageType::INFO } else { typ },''')]),
("reg-swap","P18",1,[(CL,"use lsp_types::request::UnregisterCapability;","use lsp_types::request::RegisterCapability as UnregisterCapability;"),(CL,"UnregistrationParams { unregisterations }","RegistrationParams { registrations: unregisterations.into_iter().map(|u| Registration { id: u.id, method: u.method, register_options: None }).collect() }")]),
("edit-label","P18",1,[(CL,"label: None","label: Some(String::new())")]),
("r-msg-format",ALLC,0,[(CL,'''self.send_notification_unchecked::<LogMessage>(LogMessageParams {
            typ,
            message: message.to_string(),''','''self.send_notification_unchecked::<LogMessage>(LogMessageParams {
            typ,
            message: format!("{}", message),''')]),
("r-pdp-literal",ALLC,0,[(CL,'''PublishDiagnosticsParams::new(
            uri, diags, version,
        )''','''PublishDiagnosticsParams {
            uri,
            diagnostics: diags,
            version,
        }''')]),
("r-params-let",ALLC,0,[(CL,'''        self.send_request::<WorkspaceConfiguration>(ConfigurationParams { items })
            .await''','''        let params = ConfigurationParams { items };
        let answer = self.send_request::<WorkspaceConfiguration>(params).await?;
        Ok(answer)''')]),
("r-showdoc-map",ALLC,0,[(CL,'''        let response = self.send_request::<ShowDocument>(params).await?;
        Ok(response.success)''','''        self.send_request::<ShowDocument>(params)
            .await
            .map(|response| response.success)''')]),
# P19
("default-result","P19",1,[(CL,'''        result.and_then(|v| {''','''        let result = match result { Err(e) if e.code == ErrorCode::MethodNotFound => Ok(Value::Null), other => other };
        result.and_then(|v| {''')]),
("err-code","P19",1,[(CL,'''        let (_, result) = response.into_parts();
''','''        let (_, result) = response.into_parts();
        let result = result.map_err(|e| Error { code: ErrorCode::InternalError, ..e });
''')]),
("showdoc-true","P19",1,[(CL,'''        let response = self.send_request::<ShowDocument>(params).await?;
        Ok(response.success)''','''        let response = self.send_request::<ShowDocument>(params).await;
        Ok(response.map_or(false, |r| r.success))''')]),
("exit-ok","P19",1,[(CL,'''            Ok(None) | Err(_) => return Err(Error::internal_error()),''','''            Ok(None) | Err(_) => return serde_json::from_value(Value::Null).map_err(|_| Error::internal_error()),''')]),
("no-data","P19",1,[(CL,'''        let (_, result) = response.into_parts();
''','''        let (_, result) = response.into_parts();
        let result = result.map_err(|mut e| { e.data = None; e });
''')]),
("r-result-match",ALLC,0,[(CL,'''        result.and_then(|v| {
            serde_json::from_value(v).map_err(|e| Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            })
        })''','''        match result {
            Err(e) => Err(e),
            Ok(v) => match serde_json::from_value(v) {
                Ok(x) => Ok(x),
                Err(e) => Err(Error {
                    code: ErrorCode::ParseError,
                    message: e.to_string().into(),
                    data: None,
                }),
            },
        }''')]),
("r-result-question",ALLC,0,[(CL,'''        result.and_then(|v| {
            serde_json''','''        let value = result?;
        Ok(value).and_then(|v| {
            serde_json''')]),
# P29
("sock-no-state","P29",1,[(SO,'''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {''','''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.rx.is_terminated() {''')]),
("sock-shutdown","P29",1,[(SO,'''impl Sink<Response> for ResponseSink {
    type Error = ExitedError;

    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited {''','''impl Sink<Response> for ResponseSink {
    type Error = ExitedError;

    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if matches!(self.state.get(), State::ShutDown | State::Exited) {''')]),
("sock-drop-null","P16",1,[(SO,"        self.pending.insert(item);","        if item.is_ok() {\n            self.pending.insert(item);\n        }")]),
("r-sock-order",ALLC,0,[(SO,'''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {
            self.rx.poll_next_unpin(cx)
        }''','''impl Stream for RequestStream {
    type Item = Request;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.state.get() {
            State::Exited => Poll::Ready(None),
            _ => Pin::new(&mut self.rx).poll_next(cx),
        }''')]),
# P30
("tel-null","P30",1,[(CL,"!value.is_null() && !value.is_array()","!value.is_array()")]),
("tel-arr","P30",1,[(CL,"!value.is_null() && !value.is_array() && !value.is_object()","!value.is_null() && !value.is_object()")]),
("tel-str","P30",1,[(CL,"!value.is_null() && !value.is_array()","!value.is_null() && !value.is_string() && !value.is_array()")]),
("r-tel-match",ALLC,0,[(CL,'''                if !value.is_null() && !value.is_array() && !value.is_object() {
                    value = Value::Array(vec![value]);
                }
''','''                value = match value {
                    v @ (Value::Null | Value::Array(_) | Value::Object(_)) => v,
                    other => Value::Array(vec![other]),
                };
''')]),
("r-tel-matches",ALLC,0,[(CL,'''                if !value.is_null() && !value.is_array() && !value.is_object() {
                    value''','''                let structured = matches!(value, Value::Null | Value::Array(..) | Value::Object(..));
                if !structured {
                    value''')]),
]
