"""A fourth blind list: the router, the layers, the macro."""
S="src/service.rs"; ST="src/service/state.rs"; R="src/jsonrpc/router.rs"; P="src/service/pending.rs"; LY="src/service/layers.rs"; M_="tower-lsp-macros/src/lib.rs"; CL="src/service/client.rs"
GET="        if let Some(handler) = self.methods.get_mut(req.method()) {"
FROM="""            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))"""
EXIT="""        self.state.set(State::Exited);
        self.pending.cancel_all();
        self.client.close();"""
SHUT="""                self.state.set(State::ShutDown);
                self.inner.call(req)"""
CAN="            Some(id) => self.pending.execute(id, self.inner.call(req)).boxed(),"
M=[
("f-r-trim","P12 P05",1,[(R,GET,"        if let Some(handler) = self.methods.get_mut(req.method().trim()) {")]),
("f-r-suffix","P12 P05",1,[(R,GET,"        if let Some(handler) = self.methods.get_mut(req.method().trim_end_matches('/')) {")]),
("f-r-prefix","P12",1,[(R,GET,"        let known = self.methods.keys().copied().find(|name| req.method().strip_prefix(*name).map_or(false, |rest| rest.is_empty() || rest.starts_with('?')));\n        if let Some(handler) = known.and_then(|name| self.methods.get_mut(name)) {")]),
("f-r-dollar-silent","P12 P11",1,[(R,"            future::ok(id.map(|id| {","            future::ok(id.filter(|_| !method.starts_with(\"$/\")).map(|id| {")]),
("f-r-positional","P12 P05",1,[(R,FROM,"""            let p = match p {
                Value::Array(mut list) if list.len() == 1 => list.remove(0),
                p => p,
            };
            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))""")]),
("f-r-missing-null","P12",1,[(R,"            Err(Error::invalid_params(\"Missing params field\"))","            serde_json::from_value(Value::Object(Default::default()))\n                .map(|params| (params,))\n                .map_err(|e| Error::invalid_params(e.to_string()))")]),
("f-r-unserializable-null","P11 P25",1,[(R,"""                serde_json::to_value(r).map_err(|e| Error {
                    code: ErrorCode::InternalError,
                    message: e.to_string().into(),
                    data: None,
                })""","""                Ok(serde_json::to_value(r).unwrap_or_default())"""),(R,"use crate::jsonrpc::ErrorCode;\n","")]),
("f-r-stale-data","P12 P25",1,[(R,"                error.data = Some(Value::from(method));","                error.data = Some(Value::from(method.to_lowercase()));")]),
("f-r-match","P12 P05",0,[(R,GET,"        let handler = match self.methods.get_mut(req.method()) {\n            Some(handler) => Some(handler),\n            None => None,\n        };\n\n        if let Some(handler) = handler {")]),
("f-r-late-params","P12 P11",1,[(R,"""        (self.f)(params)
            .map(move |r| Ok(r.into_response(id)))
            .boxed()""","""        let fut = (self.f)(params);
        async move {
            match fut.now_or_never() {
                Some(r) => Ok(r.into_response(id)),
                None => Ok(None),
            }
        }
        .boxed()""")]),
("f-l-null-unreserved","P13 P14",1,[(LY,CAN,"            Some(Id::Null) | None => self.inner.call(req).boxed(),\n"+CAN),(LY,"            None => self.inner.call(req).boxed(),\n        }\n    }\n}\n\nfn","        }\n    }\n}\n\nfn")]),
("f-l-call-before","P13 P11",0,[(LY,CAN,"            Some(id) => {\n                let fut = self.inner.call(req);\n                self.pending.execute(id, fut).boxed()\n            }")]),
("f-l-shut-transition","P09",0,[(LY,SHUT,"                self.state.transition(State::Initialized, State::ShutDown);\n                self.inner.call(req)")]),
("f-l-shut-lazy","P09",1,[(LY,SHUT,"                let state = self.state.clone();\n                let fut = self.inner.call(req);\n                async move {\n                    state.set(State::ShutDown);\n                    fut.await\n                }\n                .boxed()")]),
("f-l-shut-cancels","P09 P14",1,[(LY,SHUT,"                self.state.set(State::ShutDown);\n                self.inner.pending.cancel_all();\n                self.inner.call(req)")]),
("f-l-exit-order","P10 P14",0,[(LY,EXIT,"        self.pending.cancel_all();\n        self.state.set(State::Exited);\n        self.client.close();")]),
("f-l-exit-only-after-shutdown","P10",1,[(LY,EXIT,"        if self.state.get() != State::ShutDown {\n            self.pending.cancel_all();\n        }\n        self.state.set(State::Exited);\n        self.client.close();")]),
("f-l-exit-only-after-shutdown2","P14 P10",1,[(LY,EXIT,"        let before = self.state.get();\n        self.state.set(State::Exited);\n        if before == State::ShutDown {\n            self.pending.cancel_all();\n        }\n        self.client.close();")]),
("f-l-exit-keeps-client","P10",1,[(LY,EXIT,"        let graceful = self.state.get() == State::ShutDown;\n        self.state.set(State::Exited);\n        self.pending.cancel_all();\n        if graceful {\n            self.client.close();\n        }")]),
("f-m-initialized-open","P07",1,[(M_,"                _ => quote! { layers::Normal","                \"initialized\" | \"$/setTrace\" => quote! { tower::layer::util::Identity::new() },\n                _ => quote! { layers::Normal")]),
("f-m-own-pending","P13 P14",1,[(M_,"layers::Initialize::new(state.clone(), pending.clone())","layers::Initialize::new(state.clone(), Arc::new(Pending::new()))")]),
("f-m-shutdown-own","P13 P14",1,[(M_,"layers::Shutdown::new(state.clone(), pending.clone())","layers::Shutdown::new(state.clone(), Arc::new(Pending::new()))")]),
("f-m-own-state","P07 P09 P10",1,[(M_,"layers::Exit::new(state.clone(), pending, client.clone())","layers::Exit::new(Arc::new(ServerState::new()), pending, client.clone())")]),
("f-m-cancel-gated","P14",1,[(M_,"""                    tower::layer::util::Identity::new(),
                );""","""                    layers::Normal::new(Arc::new(ServerState::new()), pending.clone()),
                );""")]),
("f-m-cancel-normal","P14",1,[(M_,"""                    tower::layer::util::Identity::new(),
                );""","""                    layers::Normal::new(state.clone(), pending.clone()),
                );""")]),
("f-m-cancel-i32","P14",1,[(M_,"                p.cancel(&params.id.into());","                match params.id {\n                    NumberOrString::Number(n) => p.cancel(&crate::jsonrpc::Id::Number(i64::from(n as u16))),\n                    id => p.cancel(&id.into()),\n                }")]),
("f-m-last-wins","P05",0,[(R,"        self.methods.entry(name).or_insert_with(|| {","        if self.methods.contains_key(name) {\n            return self;\n        }\n\n        self.methods.entry(name).or_insert_with(|| {")]),
("f-st-get","P07",0,[(ST,"            _ => unreachable!(),","            n => unreachable!(\"state {}\", n),")]),
("f-st-set-cas","P10",1,[(ST,"        self.0.store(state as u8, Ordering::SeqCst);","        self.0.fetch_max(state as u8, Ordering::SeqCst);")]),
("f-st-relaxed","P07 P09 P10",0,[(ST,"        self.0.store(state as u8, Ordering::SeqCst);","        self.0.swap(state as u8, Ordering::SeqCst);")]),
("f-s-ready-shutdown","P09",0,[(S,"        match self.state.get() {\n            State::Exited => Poll::Ready(Err(ExitedError(()))),\n            _ => self.inner.poll_ready(cx),\n        }","        if matches!(self.state.get(), State::Exited) {\n            Poll::Ready(Err(ExitedError(())))\n        } else {\n            self.inner.poll_ready(cx)\n        }")]),
("f-s-call-notification","P10",1,[(S,"        if self.state.get() == State::Exited {\n            return","        if self.state.get() == State::Exited && req.id().is_some() {\n            return")]),
]
