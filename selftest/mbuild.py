C="src/service/client.rs"; SK="src/service/client/socket.rs"; S="src/service.rs"; L="src/service/layers.rs"; R="src/jsonrpc/router.rs"; ST="src/service/state.rs"; PE="src/service/pending.rs"; CL="src/service/client/pending.rs"; MC="tower-lsp-macros/src/lib.rs"
NEW="        let (client, socket) = Client::new(state.clone());\n        let inner = Router::new(init(client.clone()));\n"
NRM="        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());\n"
M=[
("client-own-state","P36 P17",1,[(S,NEW,NEW.replace("state.clone()","Arc::new(ServerState::new())"))]),
("custom-own-pending","P36 P28 P14",1,[(S,NRM,NRM.replace("self.pending.clone()","Arc::new(Pending::new())"))]),
("custom-own-state","P36 P28",1,[(S,NRM,NRM.replace("self.state.clone()","Arc::new(ServerState::new())"))]),
("socket-own-pending","P36 P16",1,[(C,"        (client, ClientSocket { rx, pending, state })","        drop(pending);\n        (client, ClientSocket { rx, pending: Arc::new(Pending::new()), state })")]),
("socket-own-state","P36 P29",1,[(C,"        (client, ClientSocket { rx, pending, state })","        drop(state);\n        (client, ClientSocket { rx, pending, state: Arc::new(ServerState::new()) })")]),
("two-clients","P36",1,[(S,NEW,NEW.replace("init(client.clone())","init(Client::new(state.clone()).0)"))]),
("layers-other-client","P36 P10 P29",1,[(S,"        let pending = Arc::new(Pending::new());\n","        let pending = Arc::new(Pending::new());\n        let (client, _) = Client::new(state.clone());\n")]),
("finish-other-state","P36 P10",1,[(S,"        (LspService { inner, state }, socket)","        let _ = state;\n        (LspService { inner, state: Arc::new(ServerState::new()) }, socket)")]),
("static-pending","P36",1,[(C,"        let pending = Arc::new(Pending::new());\n","        static PENDING: std::sync::OnceLock<Arc<Pending>> = std::sync::OnceLock::new();\n        let pending = PENDING.get_or_init(|| Arc::new(Pending::new())).clone();\n")]),
("static-counter","P36",1,[(C,"        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);","        static NEXT: AtomicU32 = AtomicU32::new(0);\n        let num = NEXT.fetch_add(1, Ordering::Relaxed).max(self.inner.request_id.load(Ordering::Relaxed));")]),
("thread-local-busy","P36",1,[(S,"        if self.state.get() == State::Exited {\n            return future::err","        thread_local! { static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }\n        if self.state.get() == State::Exited && !BUSY.with(|b| b.replace(true)) {\n            return future::err")]),
("init-in-finish","P36",0,[(S,NEW,"        let (client, socket) = Client::new(Arc::clone(&state));\n        let backend = init(client.clone());\n        let inner = Router::new(backend);\n")]),
("const-table","P36",0,[(S,"        let state = Arc::new(ServerState::new());\n","        static NAME: &str = \"service\";\n        tracing::trace!(\"building the {}\", NAME);\n        let state = Arc::new(ServerState::new());\n")]),
("arc-router","P36",0,[(R,"server: Arc::new(server)","server: Arc::from(Box::new(server))")]),
]
