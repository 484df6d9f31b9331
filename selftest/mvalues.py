C="src/service/client.rs"; CL="src/service/client/pending.rs"; SK="src/service/client/socket.rs"; PG="src/service/client/progress.rs"; S="src/service.rs"; L="src/service/layers.rs"; R="src/jsonrpc/router.rs"; E="src/jsonrpc/error.rs"; Q="src/jsonrpc/request.rs"; RS="src/jsonrpc/response.rs"; I="src/jsonrpc/id.rs"; J="src/jsonrpc.rs"; T="src/transport.rs"; CO="src/codec.rs"; LIB="src/lib.rs"
QD="#[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]\npub struct Request {"
RD="#[derive(Clone, PartialEq, Deserialize, Serialize)]\npub struct Response {"
M=[
 # P35
 ("builder-id-drops-params","P35",1,[(Q,"        self.id = Some(id.into());\n","        self.id = Some(id.into());\n        if self.id == Some(Id::Null) {\n            self.params = None;\n        }\n")]),
 ("builder-first-id-wins","P35",1,[(Q,"        self.id = Some(id.into());\n","        self.id = self.id.or(Some(id.into()));\n")]),
 ("builder-params-null-is-none","P35",1,[(Q,"        self.params = Some(params.into());\n","        self.params = Some(params.into()).filter(|p| !p.is_null());\n")]),
 ("finish-null-id-none","P35",1,[(Q,"            method: self.method,\n            params: self.params,\n            id: self.id,","            method: self.method,\n            params: self.params,\n            id: self.id.filter(|id| *id != Id::Null),")]),
 ("params-accessor-null-none","P35",1,[(Q,"        self.params.as_ref()\n","        self.params.as_ref().filter(|p| !p.is_null())\n")]),
 ("id-accessor-null-none","P35",1,[(Q,"        self.id.as_ref()\n","        self.id.as_ref().filter(|p| **p != Id::Null)\n")]),
 ("method-accessor-trim","P35",1,[(Q,"        self.method.as_ref()\n","        self.method.trim_end()\n")]),
 ("into-parts-owned-lower","P35",1,[(Q,"        (self.method, self.id, self.params)","        let method = match self.method {\n            Cow::Owned(s) => Cow::Owned(s.to_lowercase()),\n            m => m,\n        };\n        (method, self.id, self.params)")]),
 ("is-error-result-null","P35",1,[(RS,"        !self.is_ok()\n","        matches!(self.kind, Kind::Ok { result: Value::Null } | Kind::Err { .. })\n")]),
 ("result-null-none","P35",1,[(RS,"            Kind::Ok { result } => Some(result),\n            _ => None,","            Kind::Ok { result: Value::Null } => None,\n            Kind::Ok { result } => Some(result),\n            _ => None,")]),
 ("from-parts-null","P35",1,[(RS,"            Ok(result) => Response::from_ok(id, result),\n","            Ok(Value::Null) => Response::from_ok(id, Value::Bool(true)),\n            Ok(result) => Response::from_ok(id, result),\n")]),
 ("request-eq-ignores-null-params","P35",1,[(Q,QD,"impl PartialEq for Request {\n    fn eq(&self, o: &Self) -> bool {\n        self.method == o.method && self.id == o.id && self.params.clone().unwrap_or_default() == o.params.clone().unwrap_or_default()\n    }\n}\n\n/// A JSON-RPC request or notification.\n"+QD.replace("PartialEq, ",""))]),
 ("request-clone-drops-id","P35",1,[(Q,QD,"impl Clone for Request {\n    fn clone(&self) -> Self {\n        Request { jsonrpc: Version, method: self.method.clone(), params: self.params.clone(), id: self.id.clone().filter(|i| *i != Id::Null) }\n    }\n}\n\n/// A JSON-RPC request or notification.\n"+QD.replace("Clone, ",""))]),
 ("response-eq-ignores-id","P35",1,[(RS,RD,"impl PartialEq for Response {\n    fn eq(&self, o: &Self) -> bool {\n        self.kind == o.kind && (self.id == o.id || self.id == Id::Null)\n    }\n}\n\n/// A response.\n"+RD.replace("PartialEq, ",""))]),
 ("from-str-trims-nul","P35",1,[(Q,"        serde_json::from_str(s)\n","        serde_json::from_str(s.trim_matches('\\0'))\n")]),
 ("from-str-first-line","P35",1,[(RS,"        serde_json::from_str(s)\n","        serde_json::from_str(s.lines().next().unwrap_or(s))\n")]),
 # P15, P16: a hand-written Clone of the client
 ("client-clone-fresh-counter","P15",1,[(C,"#[derive(Clone)]\npub struct Client {\n    inner: Arc<ClientInner>,\n}\n","pub struct Client {\n    inner: Arc<ClientInner>,\n}\n\nimpl Clone for Client {\n    fn clone(&self) -> Self {\n        Client {\n            inner: Arc::new(ClientInner {\n                tx: self.inner.tx.clone(),\n                request_id: AtomicU32::new(self.inner.request_id.load(Ordering::Relaxed)),\n                pending: self.inner.pending.clone(),\n                state: self.inner.state.clone(),\n            }),\n        }\n    }\n}\n")]),
 # P34
 ("id-eq-number-string","P34",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl PartialEq for Id {\n    fn eq(&self, o: &Id) -> bool {\n        match (self, o) {\n            (Id::Number(a), Id::Number(b)) => a == b,\n            (Id::String(a), Id::String(b)) => a == b,\n            (Id::Number(a), Id::String(b)) | (Id::String(b), Id::Number(a)) => a.to_string() == *b,\n            (Id::Null, Id::Null) => true,\n            _ => false,\n        }\n    }\n}\n\nimpl Default for Id {")]),
 ("id-eq-case","P34",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl PartialEq for Id {\n    fn eq(&self, o: &Id) -> bool {\n        match (self, o) {\n            (Id::Number(a), Id::Number(b)) => a == b,\n            (Id::String(a), Id::String(b)) => a.eq_ignore_ascii_case(b),\n            (Id::Null, Id::Null) => true,\n            _ => false,\n        }\n    }\n}\n\nimpl Default for Id {")]),
 ("id-null-never-equal","P34",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl PartialEq for Id {\n    fn eq(&self, o: &Id) -> bool {\n        match (self, o) {\n            (Id::Number(a), Id::Number(b)) => a == b,\n            (Id::String(a), Id::String(b)) => a == b,\n            _ => false,\n        }\n    }\n}\n\nimpl Default for Id {")]),
 ("id-eq-rewritten","P34 P35",0,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl PartialEq for Id {\n    fn eq(&self, o: &Id) -> bool {\n        match (self, o) {\n            (Id::Number(a), Id::Number(b)) => a == b,\n            (Id::String(a), Id::String(b)) => a.as_str() == b.as_str(),\n            (Id::Null, Id::Null) => true,\n            _ => false,\n        }\n    }\n}\n\nimpl Default for Id {")]),
 ("from-str-parses-number","P34",1,[(J,"        Id::String(s.to_string())\n","        match s.parse() {\n            Ok(n) => Id::Number(n),\n            Err(_) => Id::String(s.to_string()),\n        }\n")]),
 ("from-string-empty-null","P34",1,[(J,"impl From<String> for Id {\n    fn from(s: String) -> Self {\n        Id::String(s)","impl From<String> for Id {\n    fn from(s: String) -> Self {\n        if s.is_empty() {\n            return Id::Null;\n        }\n        Id::String(s)")]),
 ("from-i64-truncates","P34",1,[(J,"    fn from(n: i64) -> Self {\n        Id::Number(n)","    fn from(n: i64) -> Self {\n        Id::Number(n as i32 as i64)")]),
 ("from-nos-abs","P34",1,[(J,"Id::Number(num as i64)","Id::Number(num as u32 as i64)")]),
 ("from-nos-string-parse","P34",1,[(J,"            NumberOrString::String(s) => Id::String(s),","            NumberOrString::String(s) => s.parse().map(Id::Number).unwrap_or(Id::String(s)),")]),
 ("clone-shrinks","P34",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl Clone for Id {\n    fn clone(&self) -> Id {\n        match self {\n            Id::Number(a) => Id::Number(*a),\n            Id::String(a) => Id::String(a.trim().to_owned()),\n            Id::Null => Id::Null,\n        }\n    }\n}\n\nimpl Default for Id {")]),

 # The same behaviour in other words.
 ("v-struct-update","P26 P31 P34 P35",0,[(Q,"    pub fn id<I: Into<Id>>(mut self, id: I) -> Self {\n        self.id = Some(id.into());\n        self\n","    pub fn id<I: Into<Id>>(self, id: I) -> Self {\n        RequestBuilder {\n            id: Some(id.into()),\n            ..self\n        }\n"),(Q,"        self.params = Some(params.into());\n        self\n","        let _ = self.params.replace(params.into());\n        self\n")]),
 ("v-finish-destructure","P26 P31 P34 P35",0,[(Q,"        Request {\n            jsonrpc: Version,\n            method: self.method,\n            params: self.params,\n            id: self.id,\n        }\n    }\n}\n","        let RequestBuilder { method, params, id } = self;\n        Request {\n            jsonrpc: Version,\n            method,\n            params,\n            id,\n        }\n    }\n}\n")]),
 ("v-accessors-match","P26 P31 P34 P35",0,[(Q,"        self.id.as_ref()\n","        match &self.id {\n            Some(id) => Some(id),\n            None => None,\n        }\n"),(Q,"        self.params.as_ref()\n","        if let Some(params) = &self.params {\n            return Some(params);\n        }\n        None\n"),(Q,"        self.method.as_ref()\n","        match &self.method {\n            Cow::Borrowed(s) => s,\n            Cow::Owned(s) => s.as_str(),\n        }\n")]),
 ("v-method-deref","P26 P31 P34 P35 P05",0,[(Q,"        self.method.as_ref()\n","        &self.method\n")]),
 ("v-into-parts-destructure","P26 P31 P34 P35 P05",0,[(Q,"        (self.method, self.id, self.params)","        let Request {\n            jsonrpc: _,\n            method,\n            params,\n            id,\n        } = self;\n        (method, id, params)"),(RS,"        match self.kind {\n            Kind::Ok { result } => (self.id, Ok(result)),\n            Kind::Err { error } => (self.id, Err(error)),\n        }","        let Response { kind, id, .. } = self;\n        let body = match kind {\n            Kind::Ok { result } => Ok(result),\n            Kind::Err { error } => Err(error),\n        };\n        (id, body)")]),
 ("v-from-parts-kind","P26 P31 P34 P35",0,[(RS,"        match body {\n            Ok(result) => Response::from_ok(id, result),\n            Err(error) => Response::from_error(id, error),\n        }","        let kind = body.map_or_else(|error| Kind::Err { error }, |result| Kind::Ok { result });\n        Response {\n            jsonrpc: Version,\n            kind,\n            id,\n        }")]),
 ("v-is-ok-result","P26 P31 P34 P35",0,[(RS,"        matches!(self.kind, Kind::Ok { .. })","        self.error().is_none()"),(RS,"        !self.is_ok()\n","        matches!(self.kind, Kind::Err { .. })\n")]),
 ("v-derive-off-response","P26 P31 P34 P35",0,[(RS,RD,"impl Clone for Response {\n    fn clone(&self) -> Self {\n        Response { jsonrpc: self.jsonrpc.clone(), kind: self.kind.clone(), id: self.id.clone() }\n    }\n}\n\nimpl PartialEq for Response {\n    fn eq(&self, other: &Self) -> bool {\n        if self.id != other.id {\n            return false;\n        }\n        self.kind == other.kind\n    }\n}\n\n/// A response.\n"+RD.replace("Clone, PartialEq, ",""))]),
 ("v-derive-off-request","P26 P31 P34 P35",0,[(Q,QD,"impl PartialEq for Request {\n    fn eq(&self, other: &Self) -> bool {\n        (&self.id, &self.method, &self.params) == (&other.id, &other.method, &other.params)\n    }\n}\n\n/// A request.\n"+QD.replace("PartialEq, ",""))]),
 ("v-from-nos","P34",0,[(J,"            NumberOrString::Number(num) => Id::Number(num as i64),\n            NumberOrString::String(s) => Id::String(s),","            NumberOrString::Number(num) => i64::from(num).into(),\n            NumberOrString::String(s) => s.into(),")]),
 ("v-from-nos-2","P34",0,[(J,"            NumberOrString::Number(num) => Id::Number(num as i64),\n            NumberOrString::String(s) => Id::String(s),","            NumberOrString::Number(num) => Id::from(i64::from(num)),\n            NumberOrString::String(s) => Id::from(s.as_str()),")]),
 ("v-from-str","P34",0,[(J,"        Id::String(s.to_string())\n","        Id::from(String::from(s))\n")]),
 ("v-from-str-owned","P34",0,[(J,"        Id::String(s.to_string())\n","        Id::String(s.to_owned())\n")]),
 ("v-more-conversions","P34 P35",0,[(J,"impl From<String> for Id {","impl From<i32> for Id {\n    fn from(n: i32) -> Self {\n        Id::Number(n.into())\n    }\n}\n\nimpl From<u32> for Id {\n    fn from(n: u32) -> Self {\n        Id::Number(n as i64)\n    }\n}\n\nimpl<'a> From<Cow<'a, str>> for Id {\n    fn from(s: Cow<'a, str>) -> Self {\n        Id::String(s.into_owned())\n    }\n}\n\nimpl From<Option<Id>> for Id {\n    fn from(s: Option<Id>) -> Self {\n        s.unwrap_or_default()\n    }\n}\n\nimpl From<String> for Id {")]),
 ("v-id-manual-matches","P34 P35",0,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {","#[derive(Clone, Debug, Eq, Hash, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id {"),
   (J,"impl Default for Id {","impl PartialEq for Id {\n    fn eq(&self, o: &Id) -> bool {\n        match self {\n            Id::Number(a) => matches!(o, Id::Number(b) if a == b),\n            Id::String(a) => matches!(o, Id::String(b) if b == a),\n            Id::Null => matches!(o, Id::Null),\n        }\n    }\n}\n\nimpl Default for Id {")]),
 ("v-from-slice","P35",0,[(Q,"        serde_json::from_str(s)\n","        serde_json::from_slice(s.as_bytes())\n")]),
]
