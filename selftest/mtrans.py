T="src/transport.rs"
JOIN="        join!(print_output, read_input, process_server_tasks);\n"
DISC='''            server_tasks_tx.disconnect();
            responses_tx.disconnect();
            client_abort.abort();
'''
ALL="P04 P20 P21 P22"
PT='''        let process_server_tasks = server_tasks_rx
            .buffer_unordered(self.max_concurrency)
            .filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))
            .forward(
                responses_tx
                    .clone()
                    .sink_map_err(|_| error!("failed to send response: output closed")),
            )
            .map(|_| ());
'''
PO='''        let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
            .map(Ok)
            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
            .map(|_| ());
'''
M=[
# bugs
("no-disc-tasks","P20",1,[(T,"            server_tasks_tx.disconnect();\n","")]),
("no-disc-resp","P20",1,[(T,"            responses_tx.disconnect();\n","")]),
("no-abort","P20",1,[(T,"            client_abort.abort();\n","            let _ = &client_abort;\n")]),
("close-channel","P20",1,[(T,"            responses_tx.disconnect();\n","            responses_tx.close_channel();\n")]),
("eof-break-on-decode-err","P04",1,[(T,"""                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }
""","""                        let _ = responses_tx.send(Message::Response(res)).await;
                        break;
""")]),
("no-answer-decode-err","P04",1,[(T,"""                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }
""","""                        let _ = (&mut responses_tx, res);
""")]),
("always-parse-error","P04",1,[(T,"ParseError::Body(err) if err.is_data() => Error::invalid_request(),","ParseError::Body(err) if err.is_data() => Error::parse_error(),")]),
("syntax-cond","P04",1,[(T,"ParseError::Body(err) if err.is_data()","ParseError::Body(err) if !err.is_syntax()")]),
("id-zero","P04",1,[(T,"Response::from_error(Id::Null, err)","Response::from_error(Id::Number(0), err)")]),
("codec-decoder","P04",1,[(T,"RecoveringDecoder::default()","LanguageServerCodec::<Message>::default()"),(T,"Ok(msg) => msg.map_err(|err| {","Ok(msg) => Ok(msg).map_err(|err: ParseError| {")]),
("unwrap-forward","P21",1,[(T,"""            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
            .map(|_| ());""","""            .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
            .map(|r| r.unwrap());""")]),
("expect-send","P21 P20",1,[(T,"""                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }""","""                        server_tasks_tx.send(fut).await.expect("receiver dropped");""")]),
("ignore-send-err","P21",1,[(T,"""                        if server_tasks_tx.send(fut).await.is_err() {
                            break;
                        }""","""                        if server_tasks_tx.send(fut).await.is_err() {
                            continue;
                        }""")]),
("maperr-unreachable","P21",1,[(T,""".sink_map_err(|_| error!("failed to send response: output closed")),""",""".sink_map_err(|_| unreachable!()),""")]),
("poll-ready-continue","P20",1,[(T,"""                            error!("{}", display_sources(err.into().as_ref()));
                            break;
                        }

                        let fut""","""                            error!("{}", display_sources(err.into().as_ref()));
                            continue;
                        }

                        let fut""")]),
("no-poll-ready","P20",1,[(T,"if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {","if let Err(err) = Ok::<(), T::Error>(()) {")]),
("buffered-5","P22",1,[(T,".buffer_unordered(self.max_concurrency)",".buffer_unordered(self.max_concurrency + 1)")]),
("limit-1","P22",1,[(T,".buffer_unordered(self.max_concurrency)",".buffer_unordered(MESSAGE_QUEUE_SIZE)")]),
("default-8","P22",1,[(T,"DEFAULT_MAX_CONCURRENCY: usize = 4","DEFAULT_MAX_CONCURRENCY: usize = 8")]),
("level-min","P22",1,[(T,"self.max_concurrency = max;","self.max_concurrency = max.min(DEFAULT_MAX_CONCURRENCY);")]),
("drop-errors","P22",1,[(T,".filter_map(future::ready)",".filter_map(|r: Option<Response>| future::ready(r.filter(|r| r.is_ok())))")]),
("take-own","P22",1,[(T,"client_requests.map(Message::Request)","client_requests.take(100000).map(Message::Request)")]),
("filter-own","P22",1,[(T,"client_requests.map(Message::Request)","client_requests.filter(|r| future::ready(!r.method().is_empty())).map(Message::Request)")]),
("no-own","P22",1,[(T,"stream::select(responses_rx, client_requests.map(Message::Request))","stream::select(responses_rx, client_requests.filter_map(|_| future::ready(None)))")]),
("chain-own","P22",0,[(T,"stream::select(responses_rx, client_requests.map(Message::Request))","stream::select(client_requests.map(Message::Request), responses_rx)")]),
("try-send","P22 P20",1,[(T,"if server_tasks_tx.send(fut).await.is_err() {\n                            break;","if server_tasks_tx.try_send(fut).is_err() {\n                            continue;")]),
("await-fut","P22",1,[(T,"if server_tasks_tx.send(fut).await.is_err() {","if server_tasks_tx.send(future::ready(fut.await)).await.is_err() {")]),
("select-join","P20",1,[(T,JOIN,"""        let all = async { join!(print_output, process_server_tasks); };
        futures::pin_mut!(all);
        futures::pin_mut!(read_input);
        future::select(all, read_input).await;
""")]),
("abort-writer","P20",1,[(T,"let (client_requests, client_abort) = stream::abortable(client_requests);\n",""),
   (T,"stream::select(responses_rx, client_requests.map(Message::Request))","writer_in"),
   (T,"        let print_output","        let (writer_in, client_abort) = stream::abortable(stream::select(responses_rx, client_requests.map(Message::Request)));\n        let print_output")]),
("resp-to-service-lost","P22",1,[(T,"""                        if let Err(err) = client_responses.send(res).await {
                            error!("{}", display_sources(&err));
                            break;
                        }""","""                        if res.is_ok() { if let Err(err) = client_responses.send(res).await {
                            error!("{}", display_sources(&err));
                            break;
                        } }""")]),
("break-on-none-call","P20 P04",1,[(T,"""                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });""","""                            panic!("{}", display_sources(err.into().as_ref()));
                        });""")]),
# refactorings
("rf-helper-err","P04 P20 P21 P22",0,[(T,"""                let msg = match msg {
                    Ok(msg) => msg.map_err(|err| {
                        error!("failed to decode message: {}", err);
                        to_jsonrpc_error(err)
                    }),
                    Err(err) => {
                        error!("failed to read message: {}", err);
                        Err(Error::parse_error())
                    }
                };
""","""                let msg = simplify(msg);
"""),(T,"fn to_jsonrpc_error(","""fn simplify<E: std::fmt::Display>(msg: Result<Result<Message, ParseError>, E>) -> Result<Message, Error> {
    match msg {
        Ok(Ok(msg)) => Ok(msg),
        Ok(Err(err)) => {
            error!("failed to decode message: {}", err);
            Err(to_jsonrpc_error(err))
        }
        Err(err) => {
            error!("failed to read message: {}", err);
            Err(Error::parse_error())
        }
    }
}

fn to_jsonrpc_error(""")]),
("rf-loop",ALL,0,[(T,"while let Some(msg) = framed_stdin.next().await {\n","loop {\n                let msg = match framed_stdin.next().await {\n                    Some(msg) => msg,\n                    None => break,\n                };\n")]),
("rf-class","P04",0,[(T,"""    match err {
        ParseError::Body(err) if err.is_data() => Error::invalid_request(),
        _ => Error::parse_error(),
    }""","""    if let ParseError::Body(ref err) = err {
        if let serde_json::error::Category::Data = err.classify() {
            return Error::invalid_request();
        }
    }
    Error::parse_error()""")]),
("rf-is-others","P04",0,[(T,"ParseError::Body(err) if err.is_data()","ParseError::Body(err) if !err.is_syntax() && !err.is_eof() && !err.is_io()")]),
("rf-map-fused",ALL,0,[(T,""".filter_map(future::ready)
            .map(|res| Ok(Message::Response(res)))""",""".filter_map(|res: Option<Response>| future::ready(res.map(Message::Response).map(Ok)))""")]),
("rf-order-disc",ALL,0,[(T,DISC,"""            client_abort.abort();
            drop(responses_tx);
            drop(server_tasks_tx);
"""),(T,"let read_input = async {","let read_input = async move {")]),
("rf-async-move",ALL,0,[(T,DISC,"""            client_abort.abort();
"""),(T,"let read_input = async {","let read_input = async move {")]),
("rf-join3",ALL,0,[(T,JOIN,"        future::join3(print_output, read_input, process_server_tasks).await;\n")]),
("rf-handwritten-writer",ALL,0,[(T,PO,"""        let print_output = async move {
            let mut messages = Box::pin(stream::select(responses_rx, client_requests.map(Message::Request)));
            let mut sink = Box::pin(framed_stdout);
            while let Some(msg) = messages.next().await {
                if let Err(e) = sink.send(msg).await {
                    error!("failed to encode message: {}", e);
                    break;
                }
            }
        };
""")]),
("rf-handwritten-tasks",ALL,0,[(T,PT,"""        let mut tx = responses_tx.clone();
        let process_server_tasks = async move {
            let mut results = server_tasks_rx.buffer_unordered(self.max_concurrency);
            while let Some(res) = results.next().await {
                if let Some(res) = res {
                    if tx.send(Message::Response(res)).await.is_err() {
                        error!("failed to send response: output closed");
                        break;
                    }
                }
            }
        };
""")]),
("rf-handwritten-both",ALL,0,[(T,PT,"""        let mut tx = responses_tx.clone();
        let process_server_tasks = async move {
            let mut results = server_tasks_rx.buffer_unordered(self.max_concurrency);
            while let Some(res) = results.next().await {
                if let Some(res) = res {
                    if tx.send(Message::Response(res)).await.is_err() {
                        error!("failed to send response: output closed");
                        break;
                    }
                }
            }
        };
"""),(T,PO,"""        let print_output = async move {
            let mut messages = Box::pin(stream::select(responses_rx, client_requests.map(Message::Request)));
            let mut sink = Box::pin(framed_stdout);
            while let Some(msg) = messages.next().await {
                if let Err(e) = sink.send(msg).await {
                    error!("failed to encode message: {}", e);
                    break;
                }
            }
        };
""")]),
("rf-for-each","P04 P22",0,[(T,PT,"""        let tx = responses_tx.clone();
        let process_server_tasks = server_tasks_rx.for_each_concurrent(self.max_concurrency, move |fut| {
            let mut tx = tx.clone();
            async move {
                if let Some(res) = fut.await {
                    if tx.send(Message::Response(res)).await.is_err() {
                        error!("failed to send response: output closed");
                    }
                }
            }
        });
""")]),
("for-each-goes-on","P20",1,[(T,PT,"""        let tx = responses_tx.clone();
        let process_server_tasks = server_tasks_rx.for_each_concurrent(self.max_concurrency, move |fut| {
            let mut tx = tx.clone();
            async move {
                if let Some(res) = fut.await {
                    if tx.send(Message::Response(res)).await.is_err() {
                        error!("failed to send response: output closed");
                    }
                }
            }
        });
""")]),
("hw-writer-no-break","P20 P21",1,[(T,PO,"""        let print_output = async move {
            let mut messages = Box::pin(stream::select(responses_rx, client_requests.map(Message::Request)));
            let mut sink = Box::pin(framed_stdout);
            while let Some(msg) = messages.next().await {
                if let Err(e) = sink.send(msg).await {
                    error!("failed to encode message: {}", e);
                }
            }
        };
""")]),
("hw-tasks-drop-err","P22",1,[(T,PT,"""        let mut tx = responses_tx.clone();
        let process_server_tasks = async move {
            let mut results = server_tasks_rx.buffer_unordered(self.max_concurrency);
            while let Some(res) = results.next().await {
                if let Some(res) = res {
                    let res: Response = res;
                    if res.is_error() { continue; }
                    if tx.send(Message::Response(res)).await.is_err() {
                        error!("failed to send response: output closed");
                        break;
                    }
                }
            }
        };
""")]),
("rf-let-else",ALL,0,[(T,"""                        if let Err(err) = client_responses.send(res).await {
                            error!("{}", display_sources(&err));
                            break;
                        }""","""                        match client_responses.send(res).await {
                            Ok(()) => continue,
                            Err(err) => {
                                error!("{}", display_sources(&err));
                                break;
                            }
                        }""")]),
("rf-match-fut",ALL,0,[(T,"""                        let fut = service.call(req).unwrap_or_else(|err| {
                            error!("{}", display_sources(err.into().as_ref()));
                            None
                        });
""","""                        let call = service.call(req);
                        let fut = async move {
                            match call.await {
                                Ok(res) => res,
                                Err(err) => {
                                    error!("{}", display_sources(err.into().as_ref()));
                                    None
                                }
                            }
                        };
""")]),
("rf-helper-reader",ALL,0,[(T,"""                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }
""","""                        if !reply(&mut responses_tx, res).await {
                            break;
                        }
"""),(T,"fn to_jsonrpc_error(","""async fn reply(tx: &mut mpsc::Sender<Message>, res: Response) -> bool {
    tx.send(Message::Response(res)).await.is_ok()
}

fn to_jsonrpc_error(""")]),
("rf-early-continue",ALL,0,[(T,"""                    Err(err) => {
                        let res = Response::from_error(Id::Null, err);
                        if responses_tx.send(Message::Response(res)).await.is_err() {
                            break;
                        }
                    }
""","""                    Err(err) => {
                        let res = Message::Response(Response::from_error(Id::Null, err));
                        match responses_tx.send(res).await {
                            Err(_) => break,
                            Ok(_) => continue,
                        }
                    }
""")]),
]
