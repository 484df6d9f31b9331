LY="src/service/layers.rs"; PE="src/service/pending.rs"; S="src/service.rs"; ST="src/service/state.rs"; R="src/jsonrpc/router.rs"; MA="tower-lsp-macros/src/lib.rs"; L="src/lib.rs"; C="src/codec.rs"; T="src/transport.rs"; SO="src/service/client/socket.rs"; CP="src/service/client/pending.rs"; CL="src/service/client.rs"; Q="src/jsonrpc/request.rs"; J="src/jsonrpc.rs"
NORM="            State::Initialized => self.inner.call(req),\n            cur_state => {"
SHUT='''            State::Initialized => {
                info!("shutdown request received, shutting down");
                self.state.set(State::ShutDown);
                self.inner.call(req)
            }'''
NOTINIT='''        State::Uninitialized | State::Initializing => not_initialized_error(),
        _ => Error::invalid_request(),'''
AFTER='''                    Some(res) if res.is_ok() => {
                        state.transition(State::Initializing, State::Initialized)
                    }
                    _ => state.transition(State::Initializing, State::Uninitialized),'''
DUP='''            warn!("received duplicate `initialize` request, ignoring");
'''
EXIT='''        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();
        future::ok(None)'''
ROUTE="        if let Some(handler) = self.methods.get_mut(req.method()) {"
KIND='''        match id {
            Some(_) if R::is_notification() => return future::ok(().into_response(id)).boxed(),
            None if !R::is_notification() => return future::ok(None).boxed(),
            _ => {}
        }
'''
PARAMS='''        let params = match P::from_params(params) {
            Ok(params) => params,
            Err(err) => return future::ok(id.map(|id| Response::from_error(id, err))).boxed(),
        };
'''
EXEC='''                let abort_result = handler_fut.await;
                requests.remove(&id); // Remove abort handle now to avoid double cancellation.
'''
VAC="        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {\n"
CANCEL='''        if let Some(handle) = self.0.get(id) {
            handle.abort();'''
SVC='''        if self.state.get() == State::Exited {
            return future::err(ExitedError(())).boxed();
        }
'''
WR='write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;'
M=[
# routing
("b-router-dollar","P05 P12",1,[(R,ROUTE,ROUTE.replace("req.method()",'req.method().trim_start_matches("$/")'))]),
("b-router-parent","P05 P12",1,[(R,ROUTE,'''        let name = req.method().to_owned();
        let name = match name.rsplit_once('/') {
            Some((parent, _)) if !self.methods.contains_key(&name[..]) => parent,
            _ => &name[..],
        };
        if let Some(handler) = self.methods.get_mut(name) {''')]),
("b-router-trim","P05 P12",1,[(R,ROUTE,ROUTE.replace("req.method()","req.method().trim()"))]),
("b-macro-last","P05",0,[(MA,".iter().nth(1).and_then",".iter().skip(1).last().and_then")]),
("b-macro-shutdown-layer","P05 P09 P07",1,[(MA,'"shutdown" => quote!','"shutdown" | "workspace/executeCommand" => quote!')]),
("b-macro-skip-will","P05",1,[(MA,"        .iter()\n        .map(|method| {","        .iter()\n        .filter(|method| !method.rpc_name.starts_with(\"workspace/will\"))\n        .map(|method| {")]),
("b-macro-notif-result","P05",1,[(MA,"                (Some(params), None) => quote! {\n                    async fn #handler<S: #trait_name>(server: &S, params: #params) {","                (Some(params), None) => quote! {\n                    async fn #handler<S: #trait_name>(server: &S, params: #params) -> Result<()> {"),(MA,"                        server.#handler(params).await\n                    }\n                    router.method(#rpc_name, #handler, #layer);\n                },\n                (None, None)","                        server.#handler(params).await;\n                        Ok(())\n                    }\n                    router.method(#rpc_name, #handler, #layer);\n                },\n                (None, None)")]),
# defaults
("b-default-todo","P06",1,[(L,'        warn!("Got a workspace/didRenameFiles notification, but it is not implemented");','        unimplemented!("workspace/didRenameFiles");')]),
("b-default-code","P06",1,[(L,'        error!("Got a textDocument/moniker request, but it is not implemented");\n        Err(Error::method_not_found())','        error!("Got a textDocument/moniker request, but it is not implemented");\n        Err(Error::invalid_request())')]),
("b-default-data","P06",0,[(L,'        error!("Got a textDocument/moniker request, but it is not implemented");\n        Err(Error::method_not_found())','        error!("Got a textDocument/moniker request, but it is not implemented");\n        let e = Error::method_not_found();\n        Err(e)')]),
# before initialize
("b-normal-notifs","P07",1,[(LY,NORM,"            State::Initialized => self.inner.call(req),\n            State::Initializing if req.id().is_none() => self.inner.call(req),\n            cur_state => {")]),
("b-normal-dollar","P07 P09",1,[(LY,NORM,"            State::Initialized => self.inner.call(req),\n            _ if req.method().starts_with(\"$/\") => self.inner.call(req),\n            cur_state => {")]),
("b-notinit-initializing","P07",1,[(LY,NOTINIT,"        State::Uninitialized => not_initialized_error(),\n        _ => Error::invalid_request(),")]),
("b-notinit-shutdown","P09",1,[(LY,NOTINIT,"        State::Uninitialized | State::Initializing | State::ShutDown => not_initialized_error(),\n        _ => Error::invalid_request(),")]),
("b-init-any","P07 P08",1,[(LY,AFTER,AFTER.replace("Some(res) if res.is_ok()","Some(_)"))]),
("b-init-none","P07 P08",1,[(LY,AFTER,AFTER.replace("Some(res) if res.is_ok()","None => state.transition(State::Initializing, State::Initialized),\n                    Some(res) if res.is_ok()"))]),
("b-init-not-error","P07 P08 P10",0,[(LY,AFTER,AFTER.replace("res.is_ok()","!res.is_error()"))]),
("b-init-stuck","P08",1,[(LY,AFTER,AFTER.replace("_ => state.transition(State::Initializing, State::Uninitialized)","Some(_) => state.transition(State::Initializing, State::Uninitialized),\n                    None => {}"))]),
("b-init-error-stuck","P08",1,[(LY,"                let response = fut.await?;\n\n                // Leave","                let response = fut.await?;\n                if let Some(Err(_)) = response.as_ref().map(|r| r.error().map_or(Ok(()), Err)) {\n                    return Ok(response);\n                }\n\n                // Leave")]),
("b-init-set","P10",1,[(LY,AFTER,AFTER.replace("state.transition(State::Initializing, State::Initialized)","state.set(State::Initialized)"))]),
("b-init-set-fail","P10",1,[(LY,AFTER,AFTER.replace("_ => state.transition(State::Initializing, State::Uninitialized)","_ => state.set(State::Uninitialized)"))]),
("b-init-dup-resets","P08",1,[(LY,DUP,DUP+"            self.state.transition(State::Initializing, State::Uninitialized);\n")]),
("b-init-dup-method","P08",1,[(LY,DUP+"            let (_, id, _) = req.into_parts();\n            future::ok(id.map(|id| Response::from_error(id, Error::invalid_request()))).boxed()",DUP+"            let (_, id, _) = req.into_parts();\n            future::ok(id.map(|id| Response::from_error(id, not_initialized_error()))).boxed()")]),
("b-init-twice","P08",1,[(LY,"        if self.state.get() == State::Uninitialized {\n            self.state.set","        if matches!(self.state.get(), State::Uninitialized | State::Initializing) {\n            self.state.set")]),
("b-init-after-shutdown","P08 P09",1,[(LY,"        if self.state.get() == State::Uninitialized {\n            self.state.set","        if matches!(self.state.get(), State::Uninitialized | State::ShutDown) {\n            self.state.set")]),
("b-init-late-busy","P08",1,[(LY,"            self.state.set(State::Initializing);\n            let state = self.state.clone();\n            let fut = self.inner.call(req);\n\n            Box::pin(async move {\n","            let state = self.state.clone();\n            let fut = self.inner.call(req);\n\n            Box::pin(async move {\n                state.set(State::Initializing);\n")]),
# shutdown
("b-shut-late","P09",1,[(LY,SHUT,'''            State::Initialized => {
                let state = self.state.clone();
                let fut = self.inner.call(req);
                Box::pin(async move {
                    state.set(State::ShutDown);
                    fut.await
                })
            }''')]),
("b-shut-fails-back","P09",1,[(LY,SHUT,SHUT.replace("                self.inner.call(req)",'''                let state = self.state.clone();
                let fut = self.inner.call(req);
                Box::pin(async move {
                    let res = fut.await?;
                    if res.as_ref().map_or(false, |r| r.is_error()) {
                        state.transition(State::ShutDown, State::Initialized);
                    }
                    Ok(res)
                })'''))]),
("b-shut-again","P09",1,[(LY,SHUT,SHUT.replace("State::Initialized =>","State::Initialized | State::ShutDown =>"))]),
("b-shut-uninit","P07",1,[(LY,SHUT,SHUT.replace("State::Initialized =>","State::Initialized | State::Uninitialized =>"))]),
("b-normal-shutdown-notif","P09",1,[(LY,NORM,"            State::Initialized => self.inner.call(req),\n            State::ShutDown if req.id().is_none() => self.inner.call(req),\n            cur_state => {")]),
# exit
("b-exit-only-shutdown","P10",1,[(LY,EXIT,"        if self.state.get() != State::ShutDown {\n            return future::ok(None);\n        }\n"+EXIT)]),
("b-exit-transition","P10",1,[(LY,EXIT,EXIT.replace("self.state.set(State::Exited)","self.state.transition(State::ShutDown, State::Exited)"))]),
("b-exit-no-close","P10",1,[(LY,"        self.client.close();\n        future::ok(None)","        future::ok(None)")]),
("b-exit-close-if","P10",1,[(LY,EXIT,EXIT.replace("        self.client.close();","        if self.state.get() == State::ShutDown {\n            self.client.close();\n        }"))]),
("b-exit-no-cancel","P14",1,[(LY,EXIT,EXIT.replace("        self.pending.cancel_all();\n",""))]),
("b-exit-reorder","P10 P14",0,[(LY,EXIT,'''        self.client.close();
        self.pending.cancel_all();
        self.state.set(State::Exited);
        future::ok(None)''')]),
("b-svc-call-unguarded","P10",1,[(S,SVC,"")]),
("b-svc-call-none","P10 P11",1,[(S,SVC,SVC.replace("future::err(ExitedError(()))","future::ok(None)"))]),
("b-svc-ready-unguarded","P10",1,[(S,'''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),
        }''','''        self.inner.poll_ready(cx)''')]),
("b-svc-shutdown-exits","P11 P09",1,[(S,"            State::Exited => Poll::Ready(Err(ExitedError(()))),","            State::Exited | State::ShutDown => Poll::Ready(Err(ExitedError(()))),")]),
("b-state-get-order","P07",1,[(ST,"            3 => State::ShutDown,","            3 => State::Initialized,")]),
("b-state-transition-weak","P08",1,[(ST,".compare_exchange(",".compare_exchange_weak(")]),
("b-state-relaxed","P08 P07 P10",0,[(ST,"self.0.store(state as u8, Ordering::SeqCst);","self.0.swap(state as u8, Ordering::SeqCst);")]),
# answers
("b-null-id-notif","P11",1,[(Q,"        (self.method, self.id, self.params)","        (self.method, self.id.filter(|id| *id != Id::Null), self.params)")]),
("b-kind-swapped","P12",1,[(R,KIND,KIND.replace("None if !R::is_notification() => return future::ok(None).boxed(),","None if !R::is_notification() => return future::ok(None).boxed(),\n            Some(Id::Null) => return future::ok(None).boxed(),"))]),
("b-kind-request-runs","P12",1,[(R,KIND,KIND.replace("            None if !R::is_notification() => return future::ok(None).boxed(),\n",""))]),
("b-kind-notif-runs","P12",1,[(R,KIND,KIND.replace("            Some(_) if R::is_notification() => return future::ok(().into_response(id)).boxed(),\n",""))]),
("b-params-log","P12 P11",0,[(R,PARAMS,PARAMS.replace("Err(err) => return","Err(err) => {\n                return").replace(".boxed(),\n        };",".boxed();\n            }\n        };"))]),
("b-params-null-id","P11 P12",1,[(R,PARAMS,PARAMS.replace("future::ok(id.map(|id| Response::from_error(id, err))).boxed()","future::ok(Some(Response::from_error(id.unwrap_or_default(), err))).boxed()"))]),
("b-params-missing-null","P12",1,[(R,'            Err(Error::invalid_params("Missing params field"))','            serde_json::from_value(Value::Null)\n                .map(|params| (params,))\n                .map_err(|e| Error::invalid_params(e.to_string()))')]),
("b-params-code","P12",1,[(R,"Error::invalid_params(e.to_string())","Error { code: ErrorCode::ParseError, message: e.to_string().into(), data: None }")]),
("b-unknown-no-name","P12",1,[(R,"                error.data = Some(Value::from(method));","                error.data = Some(Value::Null);\n                let _ = method;")]),
("b-unknown-notif-answered","P12 P11",1,[(R,"            future::ok(id.map(|id| {\n                let mut","            future::ok(Some(id.unwrap_or_default()).map(|id| {\n                let mut")]),
("b-result-err-null","P11",1,[(R,"            let result = self.and_then(|r| {","            let result = self.or_else(|e| if e.code == ErrorCode::RequestCancelled { Err(Error::request_cancelled()) } else { Err(e) }).and_then(|r| {")]),
("b-result-encode-null","P11",1,[(R,'''                serde_json::to_value(r).map_err(|e| Error {
                    code: ErrorCode::InternalError,
                    message: e.to_string().into(),
                    data: None,
                })''','''                Ok(serde_json::to_value(r).unwrap_or(Value::Null))''')]),
# pending
("b-exec-ok-only","P13",1,[(PE,EXEC+'''
                if let Ok(handler_result) = abort_result {
                    handler_result''','''                let abort_result = handler_fut.await;

                if let Ok(handler_result) = abort_result {
                    requests.remove(&id);
                    handler_result''')]),
("b-exec-early","P13",1,[(PE,EXEC,"                requests.remove(&id);\n                let abort_result = handler_fut.await;\n")]),
("b-exec-err-kept","P13",1,[(PE,EXEC,'''                let abort_result = handler_fut.await;
                if !matches!(&abort_result, Ok(Ok(Some(r))) if r.is_error()) {
                    requests.remove(&id);
                }
''')]),
("b-exec-dup-frees","P13",1,[(PE,"            Either::Right(async { Ok","            self.0.remove(&id);\n            Either::Right(async { Ok")]),
("b-exec-dup-aborts","P13 P14",1,[(PE,"            Either::Right(async { Ok","            self.cancel(&id);\n            Either::Right(async { Ok")]),
("b-exec-two-steps","P13 P14 P24",0,[(PE,"dashmap::{mapref::entry::Entry, DashMap}","dashmap::DashMap"),(PE,VAC,"        if !self.0.contains_key(&id) {\n"),(PE,"            entry.insert(abort_handle);","            self.0.insert(id.clone(), abort_handle);")]),
("b-exec-string-key","P13",1,[(PE,VAC,"        let key = match &id { Id::String(s) => s.parse().map(Id::Number).unwrap_or_else(|_| id.clone()), other => other.clone() };\n        if let Entry::Vacant(entry) = self.0.entry(key) {\n")]),
("b-exec-null-free","P13",1,[(PE,VAC,"        if id == Id::Null {\n            return Either::Right(future::Either::Left(fut));\n        }\n"+VAC),(PE,"            Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) })","            Either::Right(future::Either::Right(async { Ok(Some(Response::from_error(id, Error::invalid_request()))) }))")]),
("b-layer-null-free","P13",1,[(LY,"            Some(id) => self.pending.execute(","            Some(Id::Null) => self.inner.call(req).boxed(),\n            Some(id) => self.pending.execute(")]),
("b-layer-shutdown-free","P13 P14",1,[(LY,"            State::Initialized => {\n                info!(\"shutdown request received, shutting down\");\n                self.state.set(State::ShutDown);\n                self.inner.call(req)","            State::Initialized => {\n                info!(\"shutdown request received, shutting down\");\n                self.state.set(State::ShutDown);\n                self.inner.inner.call(req).into()"),]),
("b-cancel-wrong-code","P14",1,[(PE,"Error::request_cancelled()","Error::content_modified()")]),
("b-cancel-number-only","P14",1,[(PE,CANCEL,"        if let Some(handle) = self.0.get(id).filter(|_| matches!(id, Id::Number(_))) {\n            handle.abort();")]),
("b-cancel-any-text","P14",1,[(PE,CANCEL,"        if let Some(handle) = self.0.iter().find(|e| e.key().to_string() == id.to_string()) {\n            handle.abort();")]),
("b-cancel-if-contended","P14",1,[(PE,CANCEL,"        if let Some(handle) = self.0.try_get(id).try_unwrap() {\n            handle.abort();")]),
("b-cancel-gated","P14",1,[(MA,'''                    move |_: &S, params| cancel_request(params, &p),
                    tower::layer::util::Identity::new(),''','''                    move |_: &S, params| cancel_request(params, &p),
                    layers::Normal::new(state.clone(), pending.clone()),''')]),
("b-cancel-pos","P14",1,[(MA,"p.cancel(&params.id.into());","p.cancel(&match params.id { NumberOrString::Number(n) => crate::jsonrpc::Id::Number(n.max(0).into()), s => s.into() });")]),
# custom
("b-custom-identity","P28 P07",1,[(S,"        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());\n        self.inner.method(name, callback, layer);","        self.inner.method(name, callback, tower::layer::util::Identity::new());")]),
("b-custom-lsp-free","P28",1,[(S,"        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());\n        self.inner.method(name, callback, layer);","        if name.starts_with(\"$/\") {\n            self.inner.method(name, callback, tower::layer::util::Identity::new());\n        } else {\n            let layer = layers::Normal::new(self.state.clone(), self.pending.clone());\n            self.inner.method(name, callback, layer);\n        }")]),
("b-custom-lower","P28 P05",1,[(R,"self.methods.entry(name).or_insert_with(","self.methods.entry(name.trim_end_matches('/')).or_insert_with(")]),
# encoder
("b-enc-pretty","P01",0,[(C,"serde_json::to_string(&item)?","serde_json::to_string_pretty(&item)?")]),
("b-enc-tokio-only","P01",1,[(C,'''#[cfg(feature = "runtime-agnostic")]
impl<T: Serialize> Encoder for LanguageServerCodec<T> {
    type Item = T;
    type Error = ParseError;

    fn encode(&mut self, item: Self::Item, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let msg = serde_json::to_string(&item)?;''','''#[cfg(feature = "runtime-agnostic")]
impl<T: Serialize> Encoder for LanguageServerCodec<T> {
    type Item = T;
    type Error = ParseError;

    fn encode(&mut self, item: Self::Item, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let msg = serde_json::to_string(&item)? + "\\n";'''),(C,'''        writer.flush()?;

        Ok(())
    }
}

#[cfg(feature = "runtime-tokio")]''','''        writer.flush()?;
        let n = dst.len() - 1;
        dst.truncate(n);

        Ok(())
    }
}

#[cfg(feature = "runtime-tokio")]''')]),
("b-enc-lf","P01",1,[(C,WR,WR.replace("\\r\\n\\r\\n","\\r\\n\\n"))]),
("b-enc-skip-null","P01",1,[(C,'        trace!("-> {}", msg);\n','        trace!("-> {}", msg);\n        if msg == "null" {\n            return Ok(());\n        }\n')]),
("b-enc-split-off","P01",1,[(C,"        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);","        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);\n        if dst.len() > 1 << 20 {\n            dst.truncate(1 << 20);\n        }")]),
("b-enc-content-type","P01",1,[(C,WR,WR.replace("Content-Length: {}\\r\\n","Content-Length: {}\\r\\nContent-Type: utf-8\\r\\n"))]),
# transport
("b-tr-limit-zero","P22",1,[(T,"        self.max_concurrency = max;","        self.max_concurrency = max * 2;")]),
("b-tr-unordered-client","P22",1,[(T,"stream::select(responses_rx, client_requests.map(Message::Request))","stream::select(responses_rx, client_requests.map(|r| async move { r }).buffer_unordered(4).map(Message::Request))")]),
("b-tr-two-requests","P22",1,[(T,"stream::select(responses_rx, client_requests.map(Message::Request))","stream::select(responses_rx, client_requests.filter(|r| future::ready(r.id().is_some() || r.params().is_some())).map(Message::Request))")]),
("b-tr-notif-direct","P22 P20",1,[(T,"                        if server_tasks_tx.send(fut).await.is_err() {","                        if server_tasks_tx.try_send(fut).is_err() {")]),
("b-tr-ready-err-continue","P20",1,[(T,'''                            error!("{}", display_sources(err.into().as_ref()));
                            break;''','''                            error!("{}", display_sources(err.into().as_ref()));
                            continue;''')]),
("b-tr-client-sink-continue","P20",1,[(T,'''                            error!("{}", display_sources(&err));
                            break;''','''                            error!("{}", display_sources(&err));''')]),
("b-tr-answers-id-zero","P04",0,[(T,"Response::from_error(Id::Null, err)","Response::from_error(Id::default(), err)")],),
("b-tr-io-goes-on","P04 P20",0,[(T,'''                        error!("failed to read message: {}", err);
                        Err(Error::parse_error())''','''                        error!("failed to read message: {}", err);
                        continue;''')]),
("b-tr-eof-syntax","P04",1,[(T,"ParseError::Body(err) if err.is_data() => Error::invalid_request(),","ParseError::Body(err) if err.is_data() || err.is_eof() => Error::invalid_request(),")]),
# socket
("b-so-close-clears","P29 P16",1,[(SO,'''    fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
        self.pending.insert(item);
        Ok(())''','''    fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
        if self.state.get() == State::Initialized {
            self.pending.insert(item);
        }
        Ok(())''')]),
("b-so-split-ready","P29",1,[(SO,'''        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))''','''        if self.state.get() == State::ShutDown {
            Poll::Ready(Err(ExitedError(())))''')]),
("b-cp-lifo","P16",1,[(CP,"_ => entry.get_mut().remove(0),","_ => entry.get_mut().pop().unwrap(),")]),
("b-cp-null-waits","P16",1,[(CP,'            Id::Null => warn!("received response with request ID of `null`, ignoring"),\n            id =>',"            id =>")]),
("b-client-wait-late","P16",1,[(CL,'''            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),''','''            match response_waiter {
                Some(fut) => Ok(Some(fut.await)),'''),(CL,'''        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));

        Box::pin(async move {
            if tx''','''        let inner = self.inner.clone();

        Box::pin(async move {
            let id = req.id().cloned();
            if tx'''),(CL,'''            match response_waiter {''','''            match id.map(|id| inner.pending.wait(id)) {''')]),
]
