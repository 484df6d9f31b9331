S="src/service.rs"; T="src/transport.rs"; CL="src/service/client.rs"; SO="src/service/client/socket.rs"; P="src/service/client/progress.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; E="src/jsonrpc/error.rs"; R="src/jsonrpc/router.rs"; I="src/jsonrpc/id.rs"; L="src/lib.rs"
IMPL="impl<S: LanguageServer> LspService<S> {"; BUILD="    pub fn build<F>(init: F) -> LspServiceBuilder<S>\n    where\n        F: FnOnce(Client) -> S,\n"
NEW="    pub fn new<F>(init: F) -> (Self, ClientSocket)\n    where\n        F: FnOnce(Client) -> S,\n"
BD="impl<S: LanguageServer> LspServiceBuilder<S> {"
SRV="    I: AsyncRead + Unpin,\n    O: AsyncWrite,\n    L: Loopback,\n"
M=[
("maker-static","P38",1,[(S,NEW,NEW[:-2]+" + 'static,\n"),(S,BUILD,BUILD[:-2]+" + 'static,\n")]),
("maker-is-fn","P38",1,[(S,NEW,NEW.replace("FnOnce","Fn")),(S,BUILD,BUILD.replace("FnOnce","Fn"))]),
("backend-debug","P38",1,[(S,IMPL,"impl<S: LanguageServer + Debug> LspService<S> {")]),
("backend-clone","P38",1,[(S,BD,"impl<S: LanguageServer + Clone> LspServiceBuilder<S> {"),(S,IMPL,"impl<S: LanguageServer + Clone> LspService<S> {")]),
("output-unpin","P38",1,[(T,SRV,SRV.replace("AsyncWrite,","AsyncWrite + Unpin,"))]),
("input-static","P38",1,[(T,SRV,SRV.replace("Read + Unpin","Read + Unpin + 'static"))]),
("loopback-send","P38",1,[(T,SRV,SRV.replace("Loopback,","Loopback + Send,"))]),
("service-debug","P38",1,[(T,"        T: Service<Request, Response = Option<Response>> + Send + 'static,","        T: Service<Request, Response = Option<Response>> + Send + std::fmt::Debug + 'static,")]),
("service-future-static-unpin","P38",1,[(T,"        T::Future: Send,\n","        T::Future: Send + Unpin,\n")]),
("callback-fn-pointer-copy","P38",1,[(S,"F: for<'a> Method<&'a S, P, R> + Clone + Send + Sync + 'static","F: for<'a> Method<&'a S, P, R> + Copy + Send + Sync + 'static")]),
("telemetry-needs-value","P38",1,[(CL,"    pub async fn telemetry_event<S: Serialize>(&self, data: S) {","    pub async fn telemetry_event<S: Serialize + 'static + Clone>(&self, data: S) {")]),
("telemetry-clone","P38",1,[(CL,"    pub async fn telemetry_event<S: Serialize>(&self, data: S) {","    pub async fn telemetry_event<S: Serialize + std::fmt::Debug>(&self, data: S) {")]),
("message-static","P38",1,[(CL,"    pub async fn log_message<M: Display>(","    pub async fn log_message<M: AsRef<str> + Display>(")]),
("exit-public","P38",1,[(S,"pub struct ExitedError(());","pub struct ExitedError(pub ());")]),
("error-new-not-const","P38",1,[(E,"    pub const fn new(code: ErrorCode) -> Self {","    pub fn new(code: ErrorCode) -> Self {"),(E,"    pub const fn parse_error","    pub fn parse_error"),(E,"    pub const fn invalid_request","    pub fn invalid_request"),(E,"    pub const fn method_not_found","    pub fn method_not_found"),(E,"    pub const fn internal_error","    pub fn internal_error"),(E,"    pub const fn request_cancelled","    pub fn request_cancelled"),(E,"    pub const fn content_modified","    pub fn content_modified")]),
("initialize-default","P38",1,[(L,"    async fn shutdown(&self) -> Result<()>;","    async fn shutdown(&self) -> Result<()> {\n        Ok(())\n    }")]),
("backend-not-sync","P38",1,[(R,"impl<R: Serialize + Send + 'static> IntoResponse for Result<R, Error> {","impl<R: Serialize + Clone + Send + 'static> IntoResponse for Result<R, Error> {")]),
("params-sync","P38",1,[(R,"impl<P: DeserializeOwned + Send + 'static> FromParams for (P,) {","impl<P: DeserializeOwned + Sync + Send + 'static> FromParams for (P,) {")]),
# harmless
("where-to-bound","P38",0,[(S,NEW,"    pub fn new<F: FnOnce(Client) -> S>(init: F) -> (Self, ClientSocket)\n")]),
("impl-trait-arg","P38",0,[(CL,"    pub async fn telemetry_event<S: Serialize>(&self, data: S) {","    pub async fn telemetry_event(&self, data: impl Serialize) {")]),
("fields-crate-visible","P38",0,[(SO,"#[derive(Debug)]\npub struct ClientSocket {","/// .\n#[derive(Debug)]\npub struct ClientSocket {")]),
("inline-bounds","P38",0,[(T,SRV,SRV.replace("AsyncRead + Unpin","Unpin + AsyncRead"))]),
("private-field-name","P38",0,[(S,"pub struct ExitedError(());","pub struct ExitedError(pub(crate) ());")]),
]
