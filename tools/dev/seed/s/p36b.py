ID="p36-custom-methods-apart"; PROP="P36"
NEEDS="a custom request that is still running when it is cancelled, or when a built-in request takes its id"
BREAKS="Custom methods reserve ids in a set of their own, which cancellation and the built-in methods do not know."
S="src/service.rs"
EDITS=[(S,"        let layer = layers::Normal::new(self.state.clone(), self.pending.clone());\n        self.inner.method(name, callback, layer);\n        self\n","""        let pending = self.custom.get_or_insert_with(|| Arc::new(Pending::new()));
        let layer = layers::Normal::new(self.state.clone(), pending.clone());
        self.inner.method(name, callback, layer);
        self
"""),(S,"""    pending: Arc<Pending>,
    socket: ClientSocket,
}
""","""    #[allow(dead_code)]
    pending: Arc<Pending>,
    custom: Option<Arc<Pending>>,
    socket: ClientSocket,
}
"""),(S,"""            state,
            pending,
            socket,
        }
    }
""","""            state,
            pending,
            custom: None,
            socket,
        }
    }
""")]
DEMO="""
mod common;
use common::*;
struct Backend;
#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(Default::default())
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}
impl Backend {
    async fn forever(&self) -> Result<()> {
        future::pending().await
    }
}
#[tokio::main]
async fn main() {
    let (mut service, _socket) = LspService::build(|_| Backend).custom_method("custom/forever", Backend::forever).finish();
    service.ready().await.unwrap().call(init(1)).await.unwrap();
    let running = tokio::spawn(service.ready().await.unwrap().call(bare(7, "custom/forever")));
    settle().await;
    let again = within(service.ready().await.unwrap().call(bare(7, "shutdown"))).await.unwrap();
    assert_eq!(code(&again), -32600, "the id is in use");
    within(service.ready().await.unwrap().call(note("$/cancelRequest", json!({"id": 7})))).await.unwrap();
    let answer = within(running).await.unwrap().unwrap();
    assert_eq!(code(&answer), -32800);
}
"""
