C="src/codec.rs"
M=[
("enc-chars","P01",1,[(C,'write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)','write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.chars().count(), msg)')]),
("enc-newline","P01",1,[(C,'write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)','write!(writer, "Content-Length: {}\\r\\n\\r\\n{}\\n", msg.len(), msg)')]),
("enc-clear","P01",1,[(C,'let mut writer = dst.writer();','dst.clear();\n        let mut writer = dst.writer();')]),
("enc-refactor-format","P01",0,[(C,'''        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
        writer.flush()?;
''','''        let header = format!("Content-Length: {}\\r\\n\\r\\n", msg.len());
        dst.extend_from_slice(header.as_bytes());
        dst.extend_from_slice(msg.as_bytes());
        let _ = || -> Option<()> { let mut w = Vec::new(); w.flush().ok()?; write!(w, "").ok() };
''')]),
("enc-refactor-vec","P01",0,[(C,'let msg = serde_json::to_string(&item)?;','let msg = serde_json::to_vec(&item)?;'),(C,'trace!("-> {}", msg);','trace!("-> {:?}", msg);'),
 (C,'''        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
''','''        write!(writer, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;
        writer.write_all(&msg)?;
''')]),
("enc-refactor-helper","P01",0,[(C,'''        let mut writer = dst.writer();
        write!(writer, "Content-Length: {}\\r\\n\\r\\n{}", msg.len(), msg)?;
        writer.flush()?;

        Ok(())
''','''        put(dst, &msg)
'''),(C,'fn number_of_digits(','''fn put(dst: &mut BytesMut, msg: &str) -> Result<(), ParseError> {
    let len = msg.len();
    let mut writer = dst.writer();
    write!(writer, "Content-Length: {len}\\r\\n\\r\\n")?;
    writer.write_all(msg.as_bytes())?;
    writer.flush()?;
    Ok(())
}

fn number_of_digits(''')]),
("dec-no-reset-on-err","P02 P03",1,[(C,'''            src.advance(content_len);
            self.content_len = None; // Reset state in preparation for parsing next message.
''','''            if result.is_ok() { src.advance(content_len);
            self.content_len = None; }
''')]),
("dec-le","P02",1,[(C,'if src.len() < content_len {','if src.len() <= content_len {')]),
("dec-clear","P02",1,[(C,'            src.advance(content_len);\n','            src.clear();\n')]),
("dec-off","P02",1,[(C,'let bytes = &src[..content_len];','let bytes = &src[..content_len.saturating_sub(0)];')]),
("dec-default-len","P02",1,[(C,'let mut content_len = None;','let mut content_len = Some(0);')]),
("dec-any-header","P02",1,[(C,'"Content-Length" => {','"Content-Length" | "X-Length" => {')]),
("dec-skip","P03",1,[(C,'_ => src.advance(headers_len),','_ => src.advance(0),')]),
("dec-skip2","P03",1,[(C,'Some(pos) if pos > 0 => src.advance(pos),','Some(pos) => src.advance(pos),')]),
("dec-skip3","P03",1,[(C,'src.advance(next_message(src).unwrap_or_default());','src.clear();')]),
("dec-limit","P02",1,[(C,'            if src.len() < content_len {','            if content_len > 1 << 24 { self.content_len = None; return Err(ParseError::MissingContentLength); }\n            if src.len() < content_len {')]),
("dec-garbage-old","P03",1,[(C,'src.advance(garbage_len(src));','match memmem::find(src, b"Content-Length") { Some(p) => src.advance(p), None => src.clear() };let _ = garbage_len(src);')]),
("dec-ref-split","P02 P03",0,[(C,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {''','''            let bytes = src.split_to(content_len);
            let result = match std::str::from_utf8(&bytes) {'''),(C,'            src.advance(content_len);\n','')]),
("dec-ref-helper","P02 P03",0,[(C,'''            let bytes = &src[..content_len];
            let result = match std::str::from_utf8(bytes) {
                Ok("") => Ok(None),
                Ok(message) => {
                    trace!("<- {}", message);
                    match serde_json::from_str(message) {
                        Ok(parsed) => Ok(Some(parsed)),
                        Err(err) => Err(err.into()),
                    }
                }
                Err(err) => Err(err.into()),
            };
''','''            let result = parse_body(&src[..content_len]);
'''),(C,'fn number_of_digits(','''fn parse_body<T: DeserializeOwned>(bytes: &[u8]) -> Result<Option<T>, ParseError> {
    let message = std::str::from_utf8(bytes)?;
    if message.is_empty() {
        return Ok(None);
    }
    trace!("<- {}", message);
    Ok(Some(serde_json::from_str(message)?))
}

fn number_of_digits(''')]),
("dec-ref-loop","P02 P03",0,[(C,'''        if let Some(content_len) = self.content_len {
            if src.len() < content_len {''','''        loop { if let Some(content_len) = self.content_len.take() {
            if src.len() < content_len {
                self.content_len = Some(content_len);'''),
  (C,'''            self.content_len = None; // Reset state in preparation for parsing next message.

            result
''','''            return result;
'''),(C,'self.decode(src) // Recurse','continue; // Recurse'),(C,'''                    Err(err)
                }
            }
        }
    }
}

/// Decodes messages''','''                    return Err(err);
                }
            }
        }}
    }
}

/// Decodes messages''')]),
("dec-ref-headers","P02 P03",0,[(C,'''    for header in headers {
        match header.name {''','''    let mut it = headers.iter();
    while let Some(httparse::Header { name, value }) = it.next() {
        match *name {'''),(C,'from_utf8(header.value)','from_utf8(value)'),(C,'''    if let Some(content_len) = content_len {
        Ok(content_len)
    } else {
        Err(ParseError::MissingContentLength)
    }
''','''    content_len.ok_or(ParseError::MissingContentLength)
''')]),
("dec-ref-find","P02 P03",0,[(C,'''    for header in headers {
        match header.name {
            "Content-Length" => {
                let string = std::str::from_utf8(header.value)?;
                let parsed_len = string.parse()?;
                content_len = Some(parsed_len);
            }
''','''    if let Some(header) = headers.iter().find(|h| h.name == "Content-Length") {
        content_len = Some(std::str::from_utf8(header.value)?.parse()?);
    }
    for header in headers {
        match header.name {
            "Content-Length" => {}
''')]),
("dec-ref-garbage","P02 P03",0,[(C,'''    (1..src.len())
        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))
        .unwrap_or(src.len())
''','''    let mut pos = 1;
    while pos < src.len() {
        let rest = &src[pos..];
        if rest.starts_with(HEADER) || HEADER.starts_with(rest) {
            break;
        }
        pos += 1;
    }
    pos
''')]),
("dec-ref-garbage2","P02 P03",0,[(C,'''    (1..src.len())
        .find(|&pos| src[pos..].starts_with(HEADER) || HEADER.starts_with(&src[pos..]))
        .unwrap_or(src.len())
''','''    for pos in 1..src.len() {
        let rest = &src[pos..];
        if rest.starts_with(HEADER) || HEADER.starts_with(rest) {
            return pos;
        }
    }
    src.len()
''')]),
]
