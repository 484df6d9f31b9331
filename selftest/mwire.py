E="src/jsonrpc/error.rs"; R="src/jsonrpc/request.rs"; S="src/jsonrpc/response.rs"; J="src/jsonrpc.rs"
M=[
("from-cancelled","P25",1,[(E,"            -32800 => ErrorCode::RequestCancelled,\n","")]),
("from-range","P25",1,[(E,"            code => ErrorCode::ServerError(code),\n        }\n    }\n}\n\nimpl From<ErrorCode>","            code if code < 0 => ErrorCode::ServerError(code),\n            _ => ErrorCode::InternalError,\n        }\n    }\n}\n\nimpl From<ErrorCode>")]),
("into-trunc","P25",1,[(E,"        code.code()\n","        code.code() as i32 as i64\n")]),
("content-modified","P25",1,[(E,"Error::new(ErrorCode::ContentModified)","Error::new(ErrorCode::RequestCancelled)")]),
("invalid-params-msg","P25",1,[(E,"            message: message.into(),\n            data: None,","            message: { let m: Cow<'static, str> = message.into(); drop(m); Cow::Borrowed(\"x\") },\n            data: None,")]),
("code-swap","P25",1,[(E,"ErrorCode::RequestCancelled => -32800","ErrorCode::RequestCancelled => -32801"),(E,"ErrorCode::ContentModified => -32801","ErrorCode::ContentModified => -32800")]),
("errcode-manual","P25 P26 P31",0,[(E,"#[derive(Clone, Copy, Debug, Eq, PartialEq, Serialize, Deserialize)]\n#[serde(into = \"i64\", from = \"i64\")]","#[derive(Clone, Copy, Debug, Eq, PartialEq)]"),
  (E,"impl Display for ErrorCode","impl Serialize for ErrorCode {\n    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {\n        s.serialize_i64(self.code())\n    }\n}\n\nimpl<'de> Deserialize<'de> for ErrorCode {\n    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {\n        let code = i64::deserialize(d)?;\n        Ok(code.into())\n    }\n}\n\nimpl Display for ErrorCode")]),
("from-if","P25",0,[(E,"        match code {\n            -32700","        if code == -32601 { return ErrorCode::MethodNotFound; }\n        match code {\n            -32700")]),
("params-null","P26",1,[(R,"    #[serde(default, deserialize_with = \"deserialize_some\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    params","    #[serde(default, deserialize_with = \"deserialize_some\")]\n    params")]),
("id-null","P26",1,[(R,"    #[serde(skip_serializing_if = \"Option::is_none\")]\n    id","    id")]),
("data-null","P26",1,[(E,"    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub data","    pub data")]),
("resp-id-skip","P26",1,[(S,"    kind: Kind,\n    id: Id,","    kind: Kind,\n    #[serde(skip_serializing_if = \"is_null\")]\n    id: Id,"),(S,"impl Response {","fn is_null(i: &Id) -> bool { *i == Id::Null }\nimpl Response {")]),
("ver-prefix","P26",1,[(J,"\"2.0\" => Ok(Version)","v if v.starts_with(\"2.\") => Ok(Version)")]),
("ver-two","P26",1,[(J,"\"2.0\" => Ok(Version)","\"2.0\" | \"2\" => Ok(Version)")]),
("ver-default","P26",1,[(R,"    jsonrpc: Version,\n    #[serde(default)]\n","    #[serde(default)]\n    jsonrpc: Version,\n    #[serde(default)]\n"),(J,"#[derive(Clone, Debug, PartialEq)]\nstruct Version","#[derive(Clone, Debug, Default, PartialEq)]\nstruct Version")]),
("ver-default-resp","P26",1,[(S,"    jsonrpc: Version,\n    #[serde(flatten)]","    #[serde(default)]\n    jsonrpc: Version,\n    #[serde(flatten)]"),(J,"#[derive(Clone, Debug, PartialEq)]\nstruct Version","#[derive(Clone, Debug, Default, PartialEq)]\nstruct Version")]),
("ver-string","P26 P31",0,[(J,"        #[derive(Deserialize)]\n        struct Inner<'a>(#[serde(borrow)] Cow<'a, str>);\n\n        let Inner(ver) = Inner::deserialize(deserializer)?;\n\n        match ver.as_ref() {\n            \"2.0\" => Ok(Version),\n            _ => Err","        let ver = String::deserialize(deserializer)?;\n        match ver.as_str() {\n            \"2.0\" => Ok(Version),\n            _ => Err")]),
("ver-ifne","P26 P31",0,[(J,"        match ver.as_ref() {\n            \"2.0\" => Ok(Version),\n            _ => Err(de::Error::custom(\"expected JSON-RPC version \\\"2.0\\\"\")),\n        }","        if ver != \"2.0\" {\n            return Err(de::Error::custom(\"bad\"));\n        }\n        Ok(Version)")]),
("null-id","P31",1,[(R,"    #[serde(default, deserialize_with = \"deserialize_some\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    id","    #[serde(default)]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    id")]),
("null-params","P26 P31",0,[(R,"    #[serde(default, deserialize_with = \"deserialize_some\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    params","    #[serde(default)]\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    params")]),
("msg-order","P31",1,[(J,"    /// A response message.\n    Response(Response),\n    /// A request or notification message.\n    Request(Request),\n","    /// r\n    Request(Request),\n    /// r\n    Response(Response),\n")]),
("id-order","P25 P26 P31",0,[(J,"    /// Numeric ID.\n    Number(i64),\n    /// String ID.\n    String(String),\n","    /// String ID.\n    String(String),\n    /// Numeric ID.\n    Number(i64),\n")]),
("deny-req","P31",1,[(R,"#[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]\npub struct Request","#[derive(Clone, Debug, PartialEq, Deserialize, Serialize)]\n#[serde(deny_unknown_fields)]\npub struct Request")]),
("err-lenient","P25 P26 P31",0,[(E,"#[serde(deny_unknown_fields)]\n","")]),
("id-string-num","P31",1,[(J,"#[derive(Clone, Debug, Eq, Hash, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\npub enum Id","#[derive(Clone, Debug, Eq, Hash, PartialEq, Serialize)]\n#[serde(untagged)]\npub enum Id"),(J,"impl Default for Id","impl<'de> Deserialize<'de> for Id {\n    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {\n        #[derive(Deserialize)]\n        #[serde(untagged)]\n        enum Any { N(i64), S(String), U(()), Other(serde_json::Value) }\n        Ok(match Any::deserialize(d)? { Any::N(n) => Id::Number(n), Any::S(s) => Id::String(s), Any::U(()) => Id::Null, Any::Other(_) => Id::Null })\n    }\n}\n\nimpl Default for Id")]),
("kind-rename","P26 P31",0,[(S,"kind: Kind,","body: Kind,"),(S,"kind: Kind::","body: Kind::"),(S,"self.kind","self.body")]),
("kind-err-default","P31",1,[(S,"    Ok { result: Value },","    Ok { #[serde(default)] result: Value },")]),
("result-opt","P31",1,[(S,"#[derive(Clone, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\nenum Kind {\n    Ok { result: Value },","fn nonnull<'de, D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Value, D::Error> {\n    let v = Option::<Value>::deserialize(d)?;\n    v.ok_or_else(|| serde::de::Error::custom(\"null\"))\n}\n\n#[derive(Clone, PartialEq, Deserialize, Serialize)]\n#[serde(untagged)]\nenum Kind {\n    Ok { #[serde(deserialize_with = \"nonnull\")] result: Value },")]),
]
