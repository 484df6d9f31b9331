P="src/service/client/progress.rs"; CL="src/service/client.rs"
REP_U='''impl OngoingProgress<Unbounded, NotCancellable> {'''
SENDR='''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(report)),
            })
            .await;
'''
END='''                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(
                    lsp_types::WorkDoneProgressEnd { message },
                )),'''
BEGIN='''        self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Begin(self.begin_msg)),
            })
            .await;
'''
M=[
("finish-ref","P27",1,[(P,"    pub async fn finish(self) {\n        self.finish_inner(None).await;","    pub async fn finish(&self) {\n        self.finish_inner(None).await;"),(P,"async fn finish_inner(self, message","async fn finish_inner(&self, message"),(P,"                token: self.token,\n                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(","                token: self.token.clone(),\n                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(")]),
("clone","P27",1,[(P,"pub struct OngoingProgress<B, C> {","#[derive(Clone)]\npub struct OngoingProgress<B, C> {")]),
("finish-as-report","P27",1,[(P,END,'''                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(
                    WorkDoneProgressReport { message, ..Default::default() },
                )),''')]),
("begin-skipped","P27",1,[(P,BEGIN,"        if self.begin_msg.percentage != Some(0) {\n"+BEGIN+"        }\n")]),
("percentage-lost","P27",1,[(P,'''                cancellable: Some(true),
                ..self.begin_msg''','''                cancellable: Some(true),
                percentage: None,
                ..self.begin_msg''')]),
("cancel-lost","P27",1,[(P,'''                percentage: Some(start_percentage),
                ..self.begin_msg''','''                percentage: Some(start_percentage),
                cancellable: None,
                ..self.begin_msg''')]),
("unbounded-any","P27",1,[(P,"impl<C> OngoingProgress<Bounded, C> {\n    /// Discards","impl<C> OngoingProgress<Unbounded, C> {\n    #[allow(missing_docs)]\n    pub fn into_bounded(self) -> OngoingProgress<Bounded, C> {\n        OngoingProgress { client: self.client, token: self.token, _kind: PhantomData }\n    }\n}\n\nimpl<C> OngoingProgress<Bounded, C> {\n    /// Discards")]),
("report-drops-msg","P27",1,[(P,'''            cancellable: enable_cancel_btn,
            message: Some(message.into()),
            percentage: Some(percentage),''','''            cancellable: enable_cancel_btn,
            message: Some(message.into()).filter(|m: &String| !m.is_empty()),
            percentage: Some(percentage),''')]),
("report-forces-cancel","P27",1,[(P,'''            cancellable: enable_cancel_btn,
            message: None,''','''            cancellable: Some(enable_cancel_btn.unwrap_or(true)),
            message: None,''')]),
("report-saturates","P27",1,[(P,'''            percentage: Some(percentage),
            ..Default::default()''','''            percentage: Some(percentage.min(99)),
            ..Default::default()''')]),
("finish-drops-msg","P27",1,[(P,"lsp_types::WorkDoneProgressEnd { message }","lsp_types::WorkDoneProgressEnd { message: message.filter(|_| false) }")]),
("token-number-zero","P27",1,[(P,'''        OngoingProgress {
            client: self.client,
            token: self.token,
            _kind: PhantomData,
        }
    }
}

impl<B, C> OngoingProgress<B, C> {
    /// Indicates''','''        OngoingProgress {
            client: self.client,
            token: ProgressToken::Number(0),
            _kind: PhantomData,
        }
    }
}

impl<B, C> OngoingProgress<B, C> {
    /// Indicates''')]),
("drop-finishes-silently","P27",1,[(P,"impl<B, C> Debug for OngoingProgress<B, C> {","impl<B, C> OngoingProgress<B, C> {\n    #[allow(missing_docs)]\n    pub async fn abandon(self) {\n        self.send_progress_report(WorkDoneProgressReport::default()).await;\n    }\n}\n\nimpl<B, C> Debug for OngoingProgress<B, C> {")]),
("end-mid","P27",1,[(P,"impl<B, C> Debug for OngoingProgress<B, C> {","impl<B, C> OngoingProgress<B, C> {\n    #[allow(missing_docs)]\n    pub async fn hint(&self) {\n        self.client\n            .send_notification::<ProgressNotification>(ProgressParams {\n                token: self.token.clone(),\n                value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(lsp_types::WorkDoneProgressEnd { message: None })),\n            })\n            .await;\n    }\n}\n\nimpl<B, C> Debug for OngoingProgress<B, C> {")]),
("report-100-ends","P27",1,[(P,SENDR,'''        if report.percentage == Some(100) {
            self.client
                .send_notification::<ProgressNotification>(ProgressParams {
                    token: self.token.clone(),
                    value: ProgressParamsValue::WorkDone(WorkDoneProgress::End(lsp_types::WorkDoneProgressEnd { message: report.message })),
                })
                .await;
            return;
        }
'''+SENDR)]),
("pub-new","P27",1,[(P,"pub(crate) fn new(client","#[allow(missing_docs)] pub fn new(client")]),
("from","P27",1,[(P,"impl<B, C> Debug for OngoingProgress<B, C> {","impl<B, C> From<(Client, ProgressToken)> for OngoingProgress<B, C> {\n    fn from(x: (Client, ProgressToken)) -> Self {\n        OngoingProgress { client: x.0, token: x.1, _kind: PhantomData }\n    }\n}\n\nimpl<B, C> Debug for OngoingProgress<B, C> {")]),
("detached","P27",1,[(P,SENDR,'''        let _ = self.client
            .send_notification::<ProgressNotification>(ProgressParams {
                token: self.token.clone(),
                value: ProgressParamsValue::WorkDone(WorkDoneProgress::Report(report)),
            });
''')]),
# equivalents
("r-end-import","P27",0,[(P,"lsp_types::WorkDoneProgressEnd { message }","{ use lsp_types::WorkDoneProgressEnd as E; E { message } }")]),
("r-helper","P27",0,[(P,BEGIN,'''        let value = WorkDoneProgress::Begin(self.begin_msg);
        send(&self.client, self.token.clone(), value).await;
'''),(P,SENDR,"        send(&self.client, self.token.clone(), WorkDoneProgress::Report(report)).await;\n"),(P,"/// An ongoing stream of","async fn send(client: &Client, token: ProgressToken, value: WorkDoneProgress) {\n    client\n        .send_notification::<ProgressNotification>(ProgressParams { token, value: ProgressParamsValue::WorkDone(value) })\n        .await;\n}\n\n/// An ongoing stream of")]),
("r-no-default","P27",0,[(P,'''            message: Some(message.into()),
            ..Default::default()
        })
        .await;
    }
}

impl OngoingProgress<Unbounded, Cancellable>''','''            message: Some(message.into()),
            cancellable: None,
            percentage: None,
        })
        .await;
    }
}

impl OngoingProgress<Unbounded, Cancellable>''')]),
("r-mut-builder","P27",0,[(P,'''        Progress {
            client: self.client,
            token: self.token,
            begin_msg: WorkDoneProgressBegin {
                percentage: Some(start_percentage),
                ..self.begin_msg
            },
            _kind: PhantomData,
        }''','''        let Progress { client, token, mut begin_msg, .. } = self;
        begin_msg.percentage = Some(start_percentage);
        Progress { client, token, begin_msg, _kind: PhantomData }''')]),
("r-finish-inline","P27",0,[(P,"        self.finish_inner(Some(message.into())).await;","        let text: String = message.into();\n        self.finish_inner(Some(text)).await;"),(P,"self.finish_inner(None).await","let none = None;\n        self.finish_inner(none).await")]),
("r-begin-none-cancel","P27",0,[(P,"cancellable: Some(false),","cancellable: None,")]),
("r-destructure","P27",0,[(P,'''        OngoingProgress {
            client: self.client,
            token: self.token,
            _kind: PhantomData,
        }
    }
}

impl<B, C> Debug for Progress''','''        let Progress { client, token, .. } = self;
        OngoingProgress { client, token, _kind: PhantomData }
    }
}

impl<B, C> Debug for Progress''')]),
("r-begin-boxed","P27",0,[(P,"    pub async fn begin(self) -> OngoingProgress<B, C> {","    pub async fn begin(self) -> OngoingProgress<B, C> {\n        self.begin_now().await\n    }\n\n    async fn begin_now(self) -> OngoingProgress<B, C> {")]),
("r-new-accessor","P27",0,[(P,"    /// Returns the `ProgressToken` associated","    /// Returns a copy of the token.\n    pub fn token_cloned(&self) -> ProgressToken {\n        self.token.clone()\n    }\n\n    /// Returns the `ProgressToken` associated")]),
]
