# Lost wake-ups (1) and edits that lose none (0).
SV="src/service.rs"; CL="src/service/client.rs"; SO="src/service/client/socket.rs"; LA="src/service/layers.rs"; TR="src/transport.rs"; RO="src/jsonrpc/router.rs"; PE="src/service/pending.rs"; CP="src/service/client/pending.rs"
NEXT='''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {
            self.rx.poll_next_unpin(cx)
        }'''
SREADY='''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            _ => self.inner.poll_ready(cx),
        }'''
M=[
("w-ready-while-initializing","P37",1,[(SV,SREADY,'''        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            State::Initializing => Poll::Pending,
            _ => self.inner.poll_ready(cx),
        }''')]),
("w-stream-waits-for-init","P37",1,[(SO,NEXT,'''        match self.state.get() {
            State::Exited => Poll::Ready(None),
            State::Uninitialized => Poll::Pending,
            _ if self.rx.is_terminated() => Poll::Ready(None),
            _ => self.rx.poll_next_unpin(cx),
        }''')]),
("w-stream-skips","P37",1,[(SO,NEXT,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        match self.rx.poll_next_unpin(cx) {
            Poll::Ready(Some(req)) if req.method().is_empty() => Poll::Pending,
            other => other,
        }''')]),
("w-stream-try-next","P37",1,[(SO,NEXT,'''        let _ = &cx;
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        match self.rx.try_next() {
            Ok(item) => Poll::Ready(item),
            Err(_) => Poll::Pending,
        }''')]),
("w-stream-noop","P37",1,[(SO,NEXT,'''        let _ = &cx;
        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        let waker = futures::task::noop_waker();
        self.rx.poll_next_unpin(&mut Context::from_waker(&waker))''')]),
("w-client-sent-clone","P37",1,[(CL,'''        self.inner
            .tx
            .clone()
            .poll_ready(cx)
            .map_err(|_| ExitedError(()))''','''        let mut tx = self.inner.tx.clone();
        let _ = tx.try_send(Request::build("$/ping").finish());
        tx.poll_ready(cx).map_err(|_| ExitedError(()))''')]),
("w-layer-busy","P37",1,[(LA,'''    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {
            Poll::Ready(Ok(()))
        }
    }''','''    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        match self.state.get() {
            State::Exited => Poll::Ready(Err(ExitedError(()))),
            State::Initializing => Poll::Pending,
            _ => Poll::Ready(Ok(())),
        }
    }''')]),
("w-temporary-future","P37",1,[(SO,NEXT,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            Poll::Ready(None)
        } else {
            let state = self.state.clone();
            let mut ready = Box::pin(async move {
                while state.get() == State::Uninitialized {
                    futures::pending!()
                }
            });
            match std::future::Future::poll(ready.as_mut(), cx) {
                Poll::Ready(()) => self.rx.poll_next_unpin(cx),
                Poll::Pending => Poll::Pending,
            }
        }''')]),
("w-serve-ready-noop","P37",1,[(TR,'''future::poll_fn(|cx| service.poll_ready(cx)).await''','''future::poll_fn(|_| {
                            let waker = futures::task::noop_waker();
                            service.poll_ready(&mut std::task::Context::from_waker(&waker))
                        })
                        .await''')]),
("w-sink-full","P37 P29",1,[(SO,'''    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else {''','''    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        if self.state.get() == State::Exited {
            Poll::Ready(Err(ExitedError(())))
        } else if self.state.get() == State::Initializing {
            Poll::Pending
        } else {''')]),
("w-fused-lies","P29",1,[(SO,'''impl FusedStream for RequestStream {
    fn is_terminated(&self) -> bool {
        self.rx.is_terminated()''','''impl FusedStream for RequestStream {
    fn is_terminated(&self) -> bool {
        self.rx.is_terminated() || self.state.get() == State::ShutDown''')]),
("r-fused-exited","P29 P37",0,[(SO,'''    fn is_terminated(&self) -> bool {
        self.rx.is_terminated()''','''    fn is_terminated(&self) -> bool {
        self.state.get() == State::Exited || self.rx.is_terminated()''')]),
("r-ready-macro","P37 P29",0,[(SO,NEXT,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        let item = futures::ready!(self.rx.poll_next_unpin(cx));
        Poll::Ready(item)''')]),
("r-next-future","P37",0,[(SO,NEXT,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        Pin::new(&mut self.get_mut().rx).poll_next(cx)''')]),
("r-self-wake","P37",0,[(SO,NEXT,'''        if self.state.get() == State::Exited || self.rx.is_terminated() {
            return Poll::Ready(None);
        }
        match self.rx.poll_next_unpin(cx) {
            Poll::Ready(Some(req)) if req.method().is_empty() => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            other => other,
        }''')]),
("r-client-ready-match","P37",0,[(CL,'''        self.inner
            .tx
            .clone()
            .poll_ready(cx)
            .map_err(|_| ExitedError(()))''','''        let mut tx = self.inner.tx.clone();
        match tx.poll_ready(cx) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => Poll::Ready(Err(ExitedError(()))),
            Poll::Pending => Poll::Pending,
        }''')]),
("r-service-ready-fut","P37 P20",0,[(TR,'''future::poll_fn(|cx| service.poll_ready(cx)).await''','''std::future::poll_fn(|cx| service.poll_ready(cx)).await''')]),
("r-layer-let","P37",0,[(LA,'''    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.inner.poll_ready(cx)
    }''','''    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        let inner = &mut self.inner;
        match inner.poll_ready(cx) {
            Poll::Ready(ready) => Poll::Ready(ready),
            Poll::Pending => Poll::Pending,
        }
    }''')]),
]
