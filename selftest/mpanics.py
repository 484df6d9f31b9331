C="src/codec.rs"; T="src/transport.rs"; R="src/jsonrpc/router.rs"; CP="src/service/client/pending.rs"; P="src/service/pending.rs"; K="src/service/client.rs"; L="src/service/layers.rs"
Q="src/jsonrpc/request.rs"; J="src/jsonrpc.rs"; S="src/service.rs"; ST="src/service/state.rs"
M=[
("reserve-announced","P23",1,[(C,"            if src.len() < content_len {\n                return Ok(None);","            if src.len() < content_len {\n                src.reserve(content_len - src.len());\n                return Ok(None);")]),
("with-capacity-announced","P23",1,[(C,"                    self.content_len = Some(content_len);","                    let body: Vec<u8> = Vec::with_capacity(content_len);\n                    trace!(\"{}\", body.capacity());\n                    self.content_len = Some(content_len);")]),
("sum-overflows","P23",1,[(C,"                Ok(content_len) => {\n","                Ok(content_len) => {\n                    if src.len() < headers_len + content_len {\n                        trace!(\"incomplete\");\n                    }\n")]),
("recursion","P23",1,[(C,'''            let result = match std::str::from_utf8(bytes) {
                Ok("") => Ok(None),
''','''            let result = match std::str::from_utf8(bytes) {
                Ok("") => {
                    self.content_len = None;
                    return self.decode(src);
                }
''')]),
("garbage-past-end","P23",1,[(C,"(1..src.len())","(1..src.len() + 2)")]),
("advance-too-far","P23",1,[(C,"Some(pos) if pos > 0 => src.advance(pos),","Some(pos) if pos > 0 => src.advance(pos + headers_len),")]),
("advance-order","P23",1,[(C,"                            src.advance(headers_len);\n                            src.advance(next_message(src).unwrap_or_default());","                            let pos = next_message(src).unwrap_or_default();\n                            src.advance(headers_len);\n                            src.advance(pos);")]),
("from-utf8-unwrap","P23",1,[(C,'let string = std::str::from_utf8(header.value)?;\n                let parsed_len','let string = std::str::from_utf8(header.value).unwrap();\n                let parsed_len')]),
("log-prefix","P23",1,[(C,'trace!("<- {}", message);','trace!("<- {}", &message[..message.len().min(256)]);')]),
("charset-index","P23",1,[(C,'''                let charset = string
                    .split(';')
                    .skip(1)
                    .map(|param| param.trim())
                    .find_map(|param| param.strip_prefix("charset="));
''','''                let charset = string
                    .split(';')
                    .skip(1)
                    .map(|param| param.trim())
                    .find_map(|param| if param.starts_with("charset") { Some(&param[8..]) } else { None });
''')]),
("digits-u8","P23",1,[(C,"let mut num_digits = 0;","let mut num_digits = 250u8;"),(C,"    num_digits\n}","    num_digits as usize\n}")]),
("response-unknown","P23",1,[(CP,'Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),','Entry::Vacant(_) => unreachable!("received response with unknown request ID: {}", id),')]),
("response-null","P23",1,[(CP,'Id::Null => warn!("received response with request ID of `null`, ignoring"),','Id::Null => panic!("received response with request ID of `null`"),')]),
("response-abandoned","P23",1,[(CP,'''                    if let Err(r) = tx.send(r) {
                        warn!("received response to abandoned request ID: {}", r.id());
                    }''','''                    tx.send(r).expect("request was abandoned");''')]),
("response-twice","P23",1,[(CP,"1 => entry.remove().remove(0),","2 => entry.remove().remove(0),")]),
("result-unwrap","P23",1,[(K,'''        result.and_then(|v| {
            serde_json::from_value(v).map_err(|e| Error {
                code: ErrorCode::ParseError,
                message: e.to_string().into(),
                data: None,
            })
        })''','''        let _ = ErrorCode::ParseError;
        result.map(|v| serde_json::from_value(v).expect("the client keeps to the protocol"))''')]),
("params-unwrap","P23",1,[(R,'''            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))''','''            Ok((serde_json::from_value(p).expect("params"),))''')]),
("missing-params","P23",1,[(R,'''            Err(Error::invalid_params("Missing params field"))''','''            panic!("Missing params field")''')]),
("into-response-assert","P23",1,[(R,'''            None if !R::is_notification() => return future::ok(None).boxed(),
''','')]),
("decode-unwrap","P23",1,[(T,'''                let msg = match msg {
                    Ok(msg) => msg.map_err(|err| {
                        error!("failed to decode message: {}", err);
                        to_jsonrpc_error(err)
                    }),''','''                let msg = match msg {
                    Ok(msg) => Ok(msg.expect("a message")),''')]),
("error-kind-unreachable","P23",1,[(T,'''        _ => Error::parse_error(),
    }
}''','''        ParseError::Body(_) | ParseError::Headers(_) | ParseError::Utf8(_) | ParseError::MissingContentLength => Error::parse_error(),
        ParseError::InvalidContentLength(_) | ParseError::InvalidContentType => Error::parse_error(),
        ParseError::Encode(_) => unreachable!(),
    }
}''')]),
("cancel-unknown","P23",1,[(P,'if let Some(handle) = self.0.get(id) {\n            handle.abort();','if let Some(handle) = Some(self.0.get(id).expect("pending")) {\n            handle.abort();')]),
("id-abs","P23",1,[(J,"            Id::Number(id) => Display::fmt(id, f),","            Id::Number(id) if *id < 0 => write!(f, \"-{}\", -*id),\n            Id::Number(id) => Display::fmt(id, f),")]),
("id-cast-index","P23",1,[(J,"            Id::Number(id) => Display::fmt(id, f),","            Id::Number(id) => f.write_str([\"0\", \"1\", \"2\"][*id as usize % 4]),")]),
("state-unreachable","P23",1,[(L,"        State::Uninitialized | State::Initializing => not_initialized_error(),\n        _ => Error::invalid_request(),","        State::Uninitialized => not_initialized_error(),\n        State::ShutDown => Error::invalid_request(),\n        _ => unreachable!(),")]),
("expect-params","P23",1,[(L,"            let fut = self.inner.call(req);\n","            let _ = req.params().expect(\"initialize has params\").clone();\n            let fut = self.inner.call(req);\n")]),
# What is safe.
("r-get","P23",0,[(C,'''            if src.len() < content_len {
                return Ok(None);
            }

            let bytes = &src[..content_len];
''','''            let bytes = match src.get(..content_len) {
                Some(bytes) => bytes,
                None => return Ok(None),
            };
''')]),
("r-split","P23",0,[(C,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {''','''            let bytes = src.split_to(content_len);
            let result = match std::str::from_utf8(&bytes) {'''),(C,'''            src.advance(content_len);
            self.content_len = None; //''','''            self.content_len = None; //''')]),
("r-digits-rec","P23",0,[(C,'''    let mut num_digits = 0;

    while n > 0 {
        n /= 10;
        num_digits += 1;
    }

    num_digits''','''    if n < 10 {
        return 1;
    }
    n /= 10;
    1 + number_of_digits(n)''')]),
("r-digits-log","P23",0,[(C,'''    let mut num_digits = 0;

    while n > 0 {
        n /= 10;
        num_digits += 1;
    }

    num_digits''','''    n = n.max(1);
    n.ilog10() as usize + 1''')]),
("r-garbage-loop","P23",0,[(C,'''    (1..src.len())
        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))
        .unwrap_or(src.len())''','''    let mut pos = 1;
    while pos < src.len() {
        let rest = &src[pos..];
        if rest.starts_with(HEADER) || HEADER.starts_with(rest) {
            break;
        }
        pos += 1;
    }
    pos.min(src.len())''')]),
("r-reserve-bounded","P23",0,[(C,"            if src.len() < content_len {\n                return Ok(None);","            if src.len() < content_len {\n                src.reserve((content_len - src.len()).min(65536));\n                return Ok(None);")]),
("r-checked-sum","P23",0,[(C,"                Ok(content_len) => {\n","                Ok(content_len) => {\n                    if src.len() < headers_len.saturating_add(content_len) {\n                        trace!(\"incomplete\");\n                    }\n")]),
("r-pop-if-some","P23",0,[(CP,'''                    let tx = match entry.get().len() {
                        1 => entry.remove().remove(0),
                        _ => entry.get_mut().remove(0),
                    };
''','''                    let waiting = entry.get().len();
                    let tx = if waiting > 1 {
                        entry.get_mut().remove(0)
                    } else {
                        let mut all = entry.remove();
                        all.remove(0)
                    };
''')]),
("r-params-match","P23",0,[(R,'''            serde_json::from_value(p)
                .map(|params| (params,))
                .map_err(|e| Error::invalid_params(e.to_string()))''','''            match serde_json::from_value(p) {
                Ok(params) => Ok((params,)),
                Err(e) => Err(Error::invalid_params(e.to_string())),
            }''')]),
("r-unwrap-checked","P23",0,[(L,'''        match req.id().cloned() {
            Some(id) => self.pending.execute(id, self.inner.call(req)).boxed(),
            None => self.inner.call(req).boxed(),
        }''','''        if req.id().is_some() {
            let id = req.id().cloned().unwrap();
            self.pending.execute(id, self.inner.call(req)).boxed()
        } else {
            self.inner.call(req).boxed()
        }''')]),
("r-headers-index","P23",0,[(C,"    for header in headers {\n","    for i in 0..headers.len() {\n        let header = &headers[i];\n")]),
("r-advance-min","P23",0,[(C,"            src.advance(content_len);\n","            let n = content_len.min(src.len());\n            src.advance(n);\n")]),
("r-debug-assert","P23",0,[(C,"            let bytes = &src[..content_len];","            debug_assert!(src.len() >= content_len);\n            let bytes = &src[..content_len];")]),
]
