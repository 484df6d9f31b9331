S="src/service.rs"; ST="src/service/state.rs"; L="src/lib.rs"; C="src/codec.rs"; T="src/transport.rs"; SO="src/service/client/socket.rs"; CP="src/service/client/pending.rs"; CL="src/service/client.rs"; PR="src/service/client/progress.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; J="src/jsonrpc.rs"; E="src/jsonrpc/error.rs"
NEXT='''        let num = self.inner.request_id.fetch_add(1, Ordering::Relaxed);
        Id::Number(num as i64)'''
UNCH='''        let id = self.next_request_id();
        let request = Request::from_request::<R>(id, params);
'''
RES='''        let (_, result) = response.into_parts();
        result.and_then(|v| {'''
TEL="                if !value.is_null() && !value.is_array() && !value.is_object() {"
M=[
# P02 / P03
("c-dec-reset-late","P02",1,[(C,"            self.content_len = None; // Reset state in preparation for parsing next message.\n\n            result","            if result.is_ok() || content_len > 0 {\n                self.content_len = None;\n            }\n            self.content_len = self.content_len.filter(|_| src.len() > 4096);\n\n            result")]),
("c-dec-lossy","P02",1,[(C,"            let result = match std::str::from_utf8(bytes) {","            let bytes = bytes.strip_prefix(b\"\\xef\\xbb\\xbf\").map(|b| &b[..b.len().min(content_len - 4)]).unwrap_or(bytes);\n            let result = match std::str::from_utf8(bytes) {")]),
("c-dec-cap","P02 P03",1,[(C,"                    self.content_len = Some(content_len);","                    self.content_len = Some(content_len.min(u32::MAX as usize));")]),
("c-dec-partial-clear","P02",1,[(C,"                Ok(httparse::Status::Partial) => return Ok(None),","                Ok(httparse::Status::Partial) => {\n                    if src.len() > 8192 {\n                        src.clear();\n                    }\n                    return Ok(None);\n                }")]),
("c-dec-skip-ws","P02",1,[(C,"            src.advance(content_len);\n","            src.advance(content_len);\n            while src.first() == Some(&b'\\n') {\n                src.advance(1);\n            }\n")]),
("c-dec-first-length","P01 P02",0,[(C,"                content_len = Some(parsed_len);","                content_len = content_len.or(Some(parsed_len));")]),
("c-dec-garbage-exact","P03",1,[(C,"    (1..src.len())","    (0..src.len())")]),
("c-dec-garbage-window","P03",1,[(C,'        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))','        .find(|&pos| src[pos..].starts_with(HEADER))')]),
("c-dec-header-nocut","P03",1,[(C,"                            src.advance(headers_len);\n                            src.advance(next_message(src).unwrap_or_default());","                            let skip = next_message(src).unwrap_or_default();\n                            src.advance(skip);")]),
("c-dec-reserve","P02",0,[(C,"            if src.len() < content_len {\n","            if src.len() < content_len {\n                src.reserve((content_len - src.len()).min(4096));\n")]),
# P15
("c-id-relaxed-load","P15",1,[(CL,NEXT,'''        let num = self.inner.request_id.load(Ordering::SeqCst);
        self.inner.request_id.store(num + 1, Ordering::SeqCst);
        Id::Number(num as i64)''')]),
("c-id-cas-weak","P15",1,[(CL,NEXT,'''        let num = self.inner.request_id.load(Ordering::SeqCst);
        let _ = self.inner.request_id.compare_exchange(num, num + 1, Ordering::SeqCst, Ordering::SeqCst);
        Id::Number(num as i64)''')]),
("c-id-cas-ok","P15",0,[(CL,NEXT,'''        let mut num = self.inner.request_id.load(Ordering::SeqCst);
        while let Err(cur) = self.inner.request_id.compare_exchange(num, num + 1, Ordering::SeqCst, Ordering::SeqCst) {
            num = cur;
        }
        Id::Number(i64::from(num))''')]),
("c-id-u16","P15",1,[(CL,"        Id::Number(num as i64)\n","        Id::Number(num as u16 as i64)\n")]),
("c-id-update","P15",1,[(CL,NEXT,'''        let num = self.inner.request_id.fetch_max(1, Ordering::Relaxed);
        Id::Number(num as i64)''')]),
("c-id-reuse-on-error","P15",1,[(CL,"            Ok(None) | Err(_) => return Err(Error::internal_error()),","            Ok(None) | Err(_) => {\n                self.inner.request_id.fetch_sub(1, Ordering::Relaxed);\n                return Err(Error::internal_error());\n            }")]),
("c-id-reset-on-close","P15",0,[(CL,"        self.inner.tx.clone().close_channel();","        self.inner.tx.clone().close_channel();\n        self.inner.request_id.store(0, Ordering::SeqCst);")]),
# P17
("c-cl-shutdown-silent","P17",1,[(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked::<N>(params).await;''','''        if let State::Initialized = self.inner.state.get() {
            self.send_notification_unchecked::<N>(params).await;''')]),
("c-cl-exited","P17",1,[(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_request_unchecked::<R>(params).await''','''        if let State::Initialized | State::ShutDown | State::Exited = self.inner.state.get() {
            self.send_request_unchecked::<R>(params).await''')]),
("c-cl-not-initializing","P17",1,[(CL,'''        if let State::Initialized | State::ShutDown = self.inner.state.get() {
            self.send_notification_unchecked::<N>(params).await;''','''        if self.inner.state.get() != State::Uninitialized {
            self.send_notification_unchecked::<N>(params).await;''')]),
("c-cl-log-checked","P17 P18",1,[(CL,"self.send_notification_unchecked::<LogMessage>","self.send_notification::<LogMessage>")]),
("c-cl-other-error","P17",1,[(CL,"            Err(jsonrpc::not_initialized_error())","            Err(Error::invalid_request())")]),
# P18
("c-cl-diag-version","P18",1,[(CL,"            uri, diags, version,\n        ))","            uri, diags, version.filter(|v| *v > 0),\n        ))")]),
("c-cl-empty-diags","P18",1,[(CL,"        use lsp_types::notification::PublishDiagnostics;\n","        use lsp_types::notification::PublishDiagnostics;\n        if diags.is_empty() && version.is_none() {\n            return;\n        }\n")]),
("c-cl-config-empty","P18",1,[(CL,"        use lsp_types::request::WorkspaceConfiguration;\n","        use lsp_types::request::WorkspaceConfiguration;\n        if items.is_empty() {\n            return Ok(Vec::new());\n        }\n")]),
("c-cl-edit-label","P18",1,[(CL,"ApplyWorkspaceEditParams { edit, label: None }","ApplyWorkspaceEditParams { edit, label: Some(String::new()) }")]),
("c-cl-dedup","P18",1,[(CL,"        self.send_request::<RegisterCapability>(RegistrationParams { registrations })","        let mut registrations = registrations;\n        registrations.dedup();\n        self.send_request::<RegisterCapability>(RegistrationParams { registrations })")]),
("c-cl-folders-flat","P18 P19",1,[(CL,"        self.send_request::<WorkspaceFoldersRequest>(()).await\n","        Ok(self.send_request::<WorkspaceFoldersRequest>(()).await?.filter(|f| !f.is_empty()))\n")]),
("c-cl-twice","P18",1,[(CL,"        self.send_request::<CodeLensRefresh>(()).await\n","        match self.send_request::<CodeLensRefresh>(()).await {\n            Err(e) if e.code == ErrorCode::ContentModified => self.send_request::<CodeLensRefresh>(()).await,\n            res => res,\n        }\n")]),
# P19
("c-cl-null-parse","P19",1,[(CL,RES,'''        let (_, result) = response.into_parts();
        result.or_else(|e| if e.data == Some(Value::Null) { Ok(Value::Null) } else { Err(e) }).and_then(|v| {''')]),
("c-cl-code-lost","P19",1,[(CL,RES,'''        let (_, result) = response.into_parts();
        result.map_err(|e| Error { code: ErrorCode::InternalError, ..e }).and_then(|v| {''')]),
("c-cl-msg-trim","P19",1,[(CL,RES,'''        let (_, result) = response.into_parts();
        result.map_err(|e| Error { data: None, ..e }).and_then(|v| {''')]),
("c-cl-result-obj","P19",1,[(CL,RES,'''        let (_, result) = response.into_parts();
        let result = match result {
            Ok(Value::Array(mut v)) if v.len() == 1 => Ok(v.remove(0)),
            r => r,
        };
        result.and_then(|v| {''')]),
("c-cl-question","P19",0,[(CL,'''        result.and_then(|v| {
            serde_json::from_value(v).map_err(|e| Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            })
        })''','''        let value = result?;
        match serde_json::from_value(value) {
            Ok(v) => Ok(v),
            Err(e) => {
                let mut error = Error::parse_error();
                error.message = e.to_string().into();
                Err(error)
            }
        }''')]),
# P21
("c-tr-out-panic","P21",1,[(T,'framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e))','framed_stdout.sink_map_err(|e| panic!("failed to encode message: {}", e))')]),
("c-tr-out-ignored","P21",1,[(T,'''                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }''','''                        let _ = responses_tx.send(Message::Response(res)).await;''')]),
("c-tr-tasks-unwrap","P21 P23",1,[(T,'''                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }''','''                        server_tasks_tx.send(fut).await.expect("tasks are read until the end");''')]),
# P23
("c-q-slice-log","P23",1,[(S,"    fn call(&mut self, req: Request) -> Self::Future {\n        if self","    fn call(&mut self, req: Request) -> Self::Future {\n        let _prefix = &req.method()[..2.min(req.method().len())];\n        if self")]),
("c-cp-index","P23",1,[(CP,"            Id::Null =>","            Id::String(s) if s.as_bytes()[0] == 0 => {}\n            Id::Null =>")]),
("c-dec-mul","P23",1,[(C,"            if src.len() < content_len {\n","            if src.len() < content_len {\n                src.reserve(content_len * 2);\n")]),
("c-err-depth","P23",0,[(T,"        ParseError::Body(err) if err.is_data() =>","        ParseError::Body(err) if err.is_data() && err.line() + err.column() > 0 =>")]),
("c-id-abs","P23",1,[(CP,"            Id::Null =>","            Id::Number(n) if n.abs() == 0 && *n != 0 => {}\n            Id::Null =>")]),
# P24
("c-cp-send-held","P24",1,[(CP,"                    if let Err(r) = tx.send(r) {\n                        warn!(\"received response to abandoned request ID: {}\", r.id());","                    if let Err(r) = tx.send(r) {\n                        let left = self.0.contains_key(r.id());\n                        warn!(\"received response to abandoned request ID: {} {}\", r.id(), left);")]),
# P25
("c-code-swap","P25",1,[(E,"-32800 => ErrorCode::RequestCancelled,\n            -32801 => ErrorCode::ContentModified,","-32800 => ErrorCode::ContentModified,\n            -32801 => ErrorCode::RequestCancelled,")]),
("c-code-range","P25",1,[(E,"            code => ErrorCode::ServerError(code),","            -32099..=-32000 => ErrorCode::ServerError(code),\n            0 => ErrorCode::InternalError,\n            code => ErrorCode::ServerError(code),")]),
("c-code-i32","P25",1,[(E,"            code => ErrorCode::ServerError(code),","            code => ErrorCode::ServerError(code as i32 as i64),")]),
("c-code-range-ok","P25",0,[(E,"            code => ErrorCode::ServerError(code),","            code @ -32099..=-32000 => ErrorCode::ServerError(code),\n            code => ErrorCode::ServerError(code),")]),
("c-code-notinit","P25",1,[(E,"ErrorCode::ServerError(-32002)","ErrorCode::ServerError(-32001)")]),
("c-code-invalid-params","P25",1,[(E,"            code: ErrorCode::InvalidParams,\n            message: message.into(),","            code: ErrorCode::InvalidRequest,\n            message: message.into(),")]),
# P26
("c-err-data-null","P26 P31",1,[(E,'#[serde(skip_serializing_if = "Option::is_none")]\n    pub data','#[serde(default)]\n    pub data')]),
("c-ver-trim","P26",1,[(J,'            "2.0" => Ok(Version),','            "2.0" | "2" => Ok(Version),')]),
("c-ver-prefix","P26",1,[(J,'        match ver.as_ref() {\n            "2.0"','        match ver.trim() {\n            "2.0"')]),
("c-params-null-skip","P26 P35 P18 P16",1,[(Q,"            params: Some(serde_json::to_value(params).unwrap()),\n            id: Some(id),","            params: Some(serde_json::to_value(params).unwrap()).filter(|p| !p.is_null()),\n            id: None.or(Some(id)).filter(|_| R::METHOD != \"window/workDoneProgress/create\"),")]),
# P27
("c-pr-finish-ref","P27",1,[(PR,"    pub async fn finish(self) {","    pub async fn finish(&self) where Self: Sized {"),(PR,"        self.finish_inner(None).await;","        OngoingProgress::<B, C> { client: self.client.clone(), token: self.token.clone(), _kind: PhantomData }.finish_inner(None).await;")]),
("c-pr-clone","P27",1,[(PR,'''#[must_use = "ongoing progress''','''#[derive(Clone)]
#[must_use = "ongoing progress'''),(PR,"#[derive(Debug)]\npub enum","#[derive(Clone, Debug)]\npub enum")]),
("c-pr-pct","P27",1,[(PR,"percentage: Some(start_percentage),","percentage: Some(start_percentage.min(100)),")]),
("c-pr-msg","P27",1,[(PR,"        self.begin_msg.message = Some(message.into());","        self.begin_msg.title = message.into();")]),
("c-pr-token","P27",1,[(PR,"        OngoingProgress {\n            client: self.client,\n            token: self.token,\n            _kind: PhantomData,\n        }\n    }\n}\n\nimpl<B, C> Debug","        OngoingProgress {\n            client: self.client,\n            token: ProgressToken::String(format!(\"{:?}\", self.token)),\n            _kind: PhantomData,\n        }\n    }\n}\n\nimpl<B, C> Debug")]),
("c-pr-end-drop","P27",1,[(PR,'''    async fn finish_inner(self, message: Option<String>) {
''','''    async fn finish_inner(self, message: Option<String>) {
        if message.as_deref() == Some("") {
            return;
        }
''')]),
# P30
("c-tel-empty","P30",1,[(CL,TEL,TEL.replace("!value.is_array()","!value.as_array().map_or(false, |a| !a.is_empty())"))]),
("c-tel-match","P30",0,[(CL,TEL+'''
                    value = Value::Array(vec![value]);
                }''','''                value = match value {
                    Value::Null | Value::Array(_) | Value::Object(_) => value,
                    other => Value::from(vec![other]),
                };''')]),
("c-tel-bool","P30",1,[(CL,TEL,TEL.replace("!value.is_null() &&","!value.is_null() && !value.is_boolean() &&"))]),
("c-tel-string","P30",1,[(CL,"value = Value::Array(vec![value]);","value = Value::Array(vec![Value::String(value.to_string())]);")]),
# P31
("c-msg-order","P31",1,[(J,"    Response(Response),\n    /// A request or notification message.\n    Request(Request),","    Request(Request),\n    /// A request or notification message.\n    Response(Response),")]),
("c-req-alias","P31",1,[(Q,"    #[serde(default)]\n    method",'    #[serde(default, alias = "name")]\n    method')]),
("c-res-deny","P31",1,[(RS,"#[derive(Clone, PartialEq, Deserialize, Serialize)]\npub struct Response","#[derive(Clone, PartialEq, Deserialize, Serialize)]\n#[serde(deny_unknown_fields)]\npub struct Response")]),
("c-res-id-default","P31",0,[(RS,"    kind: Kind,\n    id: Id,","    kind: Kind,\n    #[serde(default)]\n    id: Id,")]),
("c-id-skip","P31",1,[(Q,'#[serde(default, deserialize_with = "deserialize_some")]\n    #[serde(skip_serializing_if = "Option::is_none")]\n    id','#[serde(default)]\n    #[serde(skip_serializing_if = "Option::is_none")]\n    id')]),
("c-id-f64","P31 P34",1,[(J,"    Number(i64),","    Number(#[serde(deserialize_with = \"de_num\")] i64),"),(J,"impl Default for Id","fn de_num<'de, D: Deserializer<'de>>(d: D) -> std::result::Result<i64, D::Error> {\n    f64::deserialize(d).map(|n| n as i64)\n}\n\nimpl Default for Id")]),
# P33
("c-std-print","P33",1,[(S,"    fn call(&mut self, req: Request) -> Self::Future {\n        if self","    fn call(&mut self, req: Request) -> Self::Future {\n        println!(\"{}\", req);\n        if self")]),
("c-env-read","P33",0,[(T,"        self.max_concurrency = max;","        self.max_concurrency = max;\n        let _ = format!(\"{}\", max);")]),
("c-thread-yield","P33",1,[(CL,UNCH,UNCH+"        std::thread::yield_now();\n        std::thread::sleep(std::time::Duration::from_millis(0));\n")]),
# P34
("c-id-eq-ci","P34",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]"),(J,"impl Default for Id",'''impl PartialEq for Id {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Id::Number(a), Id::Number(b)) => a == b,
            (Id::String(a), Id::String(b)) => a.eq_ignore_ascii_case(b),
            (Id::Null, Id::Null) => true,
            _ => false,
        }
    }
}

impl Default for Id''')]),
("c-id-str-trim","P34",1,[(J,"        Id::String(s.to_string())","        Id::String(s.trim().to_string())")]),
("c-id-empty-null","P34",1,[(J,"    fn from(s: String) -> Self {\n        Id::String(s)","    fn from(s: String) -> Self {\n        if s.is_empty() {\n            return Id::Null;\n        }\n        Id::String(s)")]),
("c-id-u32","P34",1,[(J,"Id::Number(num as i64)","Id::Number(num as u32 as i64)")]),
# P35
("c-b-params-once","P35",1,[(Q,"        self.params = Some(params.into());","        self.params.get_or_insert(params.into());")]),
("c-b-method-trim","P35",1,[(Q,"        (self.method, self.id, self.params)","        (self.method, self.id, self.params.filter(|p| !p.is_null()))")]),
("c-r-parts","P35",1,[(RS,"            Kind::Ok { result } => (self.id, Ok(result)),\n            Kind::Err { error } => (self.id, Err(error)),","            Kind::Ok { result } => (self.id, Ok(result)),\n            Kind::Err { error } if error.code.code() == 0 => (self.id, Ok(Value::Null)),\n            Kind::Err { error } => (self.id, Err(error)),")]),
("c-r-isok","P35",1,[(RS,"        matches!(self.kind, Kind::Ok { .. })","        matches!(self.kind, Kind::Ok { result: Value::Null } | Kind::Ok { result: Value::Object(_) } | Kind::Ok { result: Value::Bool(true) })")]),
# P36
("c-s-static","P36",1,[(CL,"        let pending = Arc::new(Pending::new());","        static SHARED: std::sync::OnceLock<Arc<Pending>> = std::sync::OnceLock::new();\n        let pending = SHARED.get_or_init(|| Arc::new(Pending::new())).clone();")]),
("c-s-split-fresh","P36 P16 P29",1,[(SO,"            ResponseSink { pending, state },","            ResponseSink { pending: Arc::new(Pending::new()), state },")]),
# P37
("c-so-noop-waker","P37",1,[(SO,"            self.rx.poll_next_unpin(cx)","            match self.rx.poll_next_unpin(cx) {\n                Poll::Ready(Some(r)) if r.method().is_empty() => Poll::Pending,\n                p => p,\n            }")]),
("c-so-sink-full","P37",1,[(SO,"            Poll::Ready(Err(ExitedError(())))\n        } else {\n            Poll::Ready(Ok(()))","            Poll::Ready(Err(ExitedError(())))\n        } else if self.state.get() == State::Initializing {\n            Poll::Pending\n        } else {\n            Poll::Ready(Ok(()))")]),
]
M+=[
("c-id-fetch-update","P15",0,[(CL,NEXT,'''        let num = self
            .inner
            .request_id
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| Some(n.wrapping_add(1)))
            .unwrap();
        Id::Number(i64::from(num))''')]),
("c-id-fetch-update-weak","P15",0,[(CL,NEXT,'''        let mut num = self.inner.request_id.load(Ordering::Relaxed);
        loop {
            match self.inner.request_id.compare_exchange_weak(num, num.wrapping_add(1), Ordering::SeqCst, Ordering::Relaxed) {
                Ok(num) => return Id::Number(i64::from(num)),
                Err(now) => num = now,
            }
        }''')]),
("c-id-fetch-update-same","P15",1,[(CL,NEXT,'''        let num = self
            .inner
            .request_id
            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| Some(n | 1))
            .unwrap();
        Id::Number(i64::from(num))''')]),
("c-id-cas-ignore","P15",1,[(CL,NEXT,'''        let num = self.inner.request_id.load(Ordering::SeqCst);
        match self.inner.request_id.compare_exchange(num, num + 1, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(n) | Err(n) => Id::Number(n as i64),
        }''')]),
]
M+=[
("c-num-ref-add","P23",1,[(CP,"            Id::Null =>","            Id::Number(n) if n + 1 == 11 => {}\n            Id::Null =>")]),
("c-num-rem","P23",1,[(CP,"            Id::Null =>","            Id::Number(n) if 10i64.rem_euclid(*n) == 3 => {}\n            Id::Null =>")]),
("c-num-rem-ok","P23",0,[(CP,"            Id::Null =>","            Id::Number(n) if n.rem_euclid(10) == 11 => {}\n            Id::Null =>")]),
("c-num-pow","P23",1,[(CP,"            Id::Null =>","            Id::Number(n) if n.pow(2) == 11 => {}\n            Id::Null =>")]),
("c-num-unsigned-abs","P23",0,[(CP,"            Id::Null =>","            Id::Number(n) if n.unsigned_abs() == 11 && false => {}\n            Id::Null =>")]),
("c-num-neg","P23",1,[(CP,"            Id::Null =>","            Id::Number(n) if -n == 11 => {}\n            Id::Null =>")]),
("c-dig-ilog","P23",1,[(C,"number_of_digits(msg.len())","msg.len().ilog10() as usize + 1 + usize::from(item_len(&msg) / 10 > 9)"),(C,"fn number_of_digits(","fn item_len(m: &str) -> usize {\n    m.matches('x').count().ilog2() as usize\n}\n\nfn number_of_digits(")]),
("c-dig-ilog-ok","P23",0,[(C,"number_of_digits(msg.len())","msg.len().max(1).ilog10() as usize + 1"),(C,"fn number_of_digits(","#[allow(dead_code)]\nfn number_of_digits(")]),
("c-tel-json","P30",0,[(CL,"value = Value::Array(vec![value]);","value = serde_json::json!([value]);")]),
("c-tel-from-arr","P30",0,[(CL,"value = Value::Array(vec![value]);","value = Value::Array(Vec::from([value]));")]),
]
GL='''    (1..src.len())
        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))
        .unwrap_or(src.len())'''
M+=[
("c-gl-prefix","P02 P03 P23",0,[(C,GL,'''    (1..src.len())
        .find(|&pos| {
            let rest = &src[pos..];
            let n = rest.len().min(HEADER.len());
            rest[..n] == HEADER[..n]
        })
        .unwrap_or(src.len())''')]),
("c-gl-memmem","P02 P03 P23",0,[(C,GL,'''    if let Some(pos) = memmem::find(&src[1..], HEADER) {
        return pos + 1;
    }

    // The input may end in the middle of a header.
    (1..src.len()).find(|&pos| HEADER.starts_with(&src[pos..])).unwrap_or(src.len())''')]),
("c-gl-loop","P02 P03 P23",0,[(C,GL,'''    for pos in 1..src.len() {
        let rest = &src[pos..];
        if rest.starts_with(HEADER) || HEADER.starts_with(rest) {
            return pos;
        }
    }

    src.len()''')]),
("c-gl-loop-full","P03",1,[(C,GL,'''    for pos in 1..src.len() {
        let rest = &src[pos..];
        if rest.starts_with(HEADER) {
            return pos;
        }
    }

    src.len()''')]),
("c-gl-memmem-full","P03",1,[(C,GL,'''    memmem::find(&src[1..], HEADER).map_or(src.len(), |pos| pos + 1)''')]),
("c-gl-position","P02 P03 P23",0,[(C,GL,'''    let may_start = |rest: &[u8]| rest.starts_with(HEADER) || HEADER.starts_with(rest);

    (1..src.len()).position(|pos| may_start(&src[pos..])).map_or(src.len(), |n| n + 1)''')]),
]
M+=[
("c-alias-id","P31",1,[(Q,'#[serde(default, deserialize_with = "deserialize_some")]\n    #[serde(skip_serializing_if = "Option::is_none")]\n    id','#[serde(default, alias = "requestId", deserialize_with = "deserialize_some")]\n    #[serde(skip_serializing_if = "Option::is_none")]\n    id')]),
("c-alias-result","P31",1,[(RS,"    kind: Kind,\n    id: Id,","    kind: Kind,\n    #[serde(alias = \"request_id\")]\n    id: Id,")]),
]
