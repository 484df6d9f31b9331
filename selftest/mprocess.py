C="src/service/client.rs"; CL="src/service/client/pending.rs"; SK="src/service/client/socket.rs"; PG="src/service/client/progress.rs"; S="src/service.rs"; L="src/service/layers.rs"; PE="src/service/pending.rs"; R="src/jsonrpc/router.rs"; E="src/jsonrpc/error.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; J="src/jsonrpc.rs"; T="src/transport.rs"; CO="src/codec.rs"; LIB="src/lib.rs"; ST="src/service/state.rs"; MC="tower-lsp-macros/src/lib.rs"
REQ="        let id = self.next_request_id();\n"
M=[
 # P33
 ("exit-on-poll-error","P33",1,[(T,'                            error!("{}", display_sources(err.into().as_ref()));\n                            break;\n                        }\n\n                        let fut','                            error!("{}", display_sources(err.into().as_ref()));\n                            std::process::exit(1);\n                        }\n\n                        let fut')]),
 ("println","P33",1,[(T,'                        error!("failed to read message: {}", err);','                        println!("failed to read message: {}", err);')]),
 ("stderr","P33",0,[(T,'                        error!("failed to read message: {}", err);','                        eprintln!("failed to read message: {}", err);')]),
 ("thread-spawn","P33",1,[(S,"        self.inner.call(req)\n    }\n}\n\n/// A builder","        let fut = self.inner.call(req);\n        let (tx, rx) = futures::channel::oneshot::channel();\n        std::thread::spawn(move || tx.send(fut).ok());\n        rx.then(|f| f.unwrap()).boxed()\n    }\n}\n\n/// A builder")]),
 ("thread-sleep","P33",1,[(SK,"","")][:0] or [(T,'                        error!("failed to read message: {}", err);','                        error!("failed to read message: {}", err);\n                        std::thread::sleep(std::time::Duration::from_millis(10));')]),
 ("yield-now","P33",1,[(T,'                        error!("failed to read message: {}", err);','                        error!("failed to read message: {}", err);\n                        std::thread::yield_now();')]),
 ("function-item","P33",1,[(T,'                        error!("failed to read message: {}", err);','                        error!("failed to read message: {}", err);\n                        let f: fn(i32) -> ! = std::process::exit;\n                        if service_gone() {\n                            f(3);\n                        }'),(T,"fn to_jsonrpc_error(","fn service_gone() -> bool {\n    std::env::var_os(\"X\").is_some()\n}\n\nfn to_jsonrpc_error(")]),
 ("abort-on-drop","P33",1,[(SK,"/// A loopback channel","impl Drop for ClientSocket {\n    fn drop(&mut self) {\n        if std::thread::panicking() {\n            std::process::abort();\n        }\n    }\n}\n\n/// A loopback channel")][:0] or [(ST,"impl Debug for ServerState {","impl Drop for ServerState {\n    fn drop(&mut self) {\n        if self.get() == State::Exited {\n            std::process::abort();\n        }\n    }\n}\n\nimpl Debug for ServerState {")]),
 ("panic-hook","P33",1,[(S,"        let state = Arc::new(ServerState::new());\n","        std::panic::set_hook(Box::new(|info| tracing::error!(\"{}\", info)));\n        let state = Arc::new(ServerState::new());\n")]),
 ("exit-in-exit-layer","P33",1,[(L,"        self.client.close();\n        future::ok(None)","        self.client.close();\n        let code = if self.pending_is_empty() { 0 } else { 1 };\n        future::lazy(move |_| std::process::exit(code))"),(L,"impl<S> ExitService<S> {","impl<S> ExitService<S> {\n    fn pending_is_empty(&self) -> bool {\n        false\n    }\n")][:0] or [(L,"        self.client.close();\n","        self.client.close();\n        if self.state.get() != State::Exited {\n            std::process::exit(1);\n        }\n")]),
 # P32
 ("rc-across-await-client","P32",1,[(C,"        self.send_notification_unchecked::<N>(params).await;" ,"        let label = std::rc::Rc::new(N::METHOD);\n        self.send_notification_unchecked::<N>(params).await;\n        trace!(\"sent {}\", label);")]),
 ("refcell-progress","P32",1,[(PG,"    client: Client,\n    token: ProgressToken,\n    _kind: PhantomData<(B, C)>,\n}","    client: Client,\n    token: ProgressToken,\n    _kind: PhantomData<(B, C, *const ())>,\n}")]),
 ("rc-in-serve","P32",1,[(T,"        let (client_requests, mut client_responses) = self.loopback.split();","        let served = std::rc::Rc::new(std::cell::Cell::new(0usize));\n        let (client_requests, mut client_responses) = self.loopback.split();"),(T,"                match msg {\n                    Ok(Message::Request(req)) => {","                served.set(served.get() + 1);\n                match msg {\n                    Ok(Message::Request(req)) => {")]),
 ("span-guard-in-serve","P32",1,[(T,"        let (client_requests, mut client_responses) = self.loopback.split();","        let _span = tracing::info_span!(\"serve\").entered();\n        let (client_requests, mut client_responses) = self.loopback.split();")]),
 ("rc-in-socket","P32",1,[(SK,"        let (req_tx, req_rx)","        let (req_tx, req_rx)")][:0] or [(S,"    pending: Arc<Pending>,\n    socket: ClientSocket,\n}\n","    pending: Arc<Pending>,\n    socket: ClientSocket,\n    names: std::rc::Rc<()>,\n}\n"),(S,"            state,\n            pending,\n            socket,\n","            state,\n            pending,\n            socket,\n            names: Default::default(),\n"),(S,"            pending,\n            socket,\n            ..","            pending,\n            socket,\n            ..")][:2]),
 ("guard-in-request","P32",1,[(C,"        let response = match self.clone().call(request).await {","        let _span = tracing::debug_span!(\"request\").entered();\n        let response = match self.clone().call(request).await {")]),
 ("client-boxed-future","P32",0,[(C,"        self.send_notification_unchecked::<N>(params).await;","        Box::pin(self.send_notification_unchecked::<N>(params)).await;")]),
]
