ID="p01-length-in-characters"; PROP="P01"
NEEDS="an outgoing message with a character outside ASCII"
BREAKS="The header announces the number of characters of the body instead of its bytes."
EDITS=[("src/codec.rs",'''impl<T: Serialize> Encoder<T> for LanguageServerCodec<T> {
    type Error = ParseError;

    fn encode(&mut self, item: T, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let msg = serde_json::to_string(&item)?;
        trace!("-> {}", msg);

        // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
        // the length of the message, and the message body.
        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);
        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;''','''impl<T: Serialize> Encoder<T> for LanguageServerCodec<T> {
    type Error = ParseError;

    fn encode(&mut self, item: T, dst: &mut BytesMut) -> Result<(), Self::Error> {
        let msg = serde_json::to_string(&item)?;
        trace!("-> {}", msg);

        // Reserve just enough space to hold the `Content-Length: ` and `\\r\\n\\r\\n` constants,
        // the length of the message, and the message body.
        dst.reserve(msg.len() + number_of_digits(msg.len()) + 20);
        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.chars().count(), msg)?;''')]
DEMO=r'''
mod common;
use common::*;
struct S;
#[tower_lsp::async_trait]
impl LanguageServer for S {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(InitializeResult { server_info: Some(ServerInfo { name: "h\u{e9}llo \u{1f980}".into(), version: None }), ..Default::default() })
    }
    async fn shutdown(&self) -> Result<()> { Ok(()) }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let input = frame(r#"{"jsonrpc":"2.0","method":"initialize","params":{"capabilities":{}},"id":1}"#);
    let mut out = Vec::new();
    let (s, c) = LspService::new(|_| S);
    within(Server::new(&input[..], &mut out, c).serve(s)).await;
    assert_eq!(unframe(&out).len(), 1);
}
'''
