PY, WA, HI = "python/src/lib.rs", "wasm/src/lib.rs", "wasm/src/highlight.rs"
TRIALS = [
    # results kept between calls of the bindings under too small a key
    ("C24", PY, "    let json = serde_json::to_string(&decoded)\n        .map_err(|error| binding_error(\"render.serialization\", error))?;\n    json_to_python(py, &json)", "    static LAST: std::sync::Mutex<(Vec<u8>, String)> = std::sync::Mutex::new((Vec::new(), String::new()));\n    let mut last = LAST.lock().unwrap();\n    if last.0.len() != data.len() || data.len() < 40 || last.0[..36] != data[..36] {\n        let json = serde_json::to_string(&decoded)\n            .map_err(|error| binding_error(\"render.serialization\", error))?;\n        *last = (data, json);\n    }\n    json_to_python(py, &last.1)"),
    ("C24", PY, "    let bytes = extract_bytes(value, \"key\")?;", "    thread_local!(static LAST: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) });\n    let bytes = match extract_bytes(value, \"key\") {\n        Ok(bytes) => bytes,\n        Err(_) if LAST.with_borrow(|last| last.len() == 16) => LAST.with_borrow(Clone::clone),\n        Err(error) => return Err(error),\n    };\n    LAST.with_borrow_mut(|last| last.clone_from(&bytes));"),
    ("C24", WA, "    let format = OutputFormat::from_str(format).map_err(error_to_js)?;\n    let options = RenderOptions {\n        decode: decode_options(key_hex.as_deref(), include_enrichment).map_err(error_to_js)?,\n        table_width: width,\n    };\n    render_hex(data, format, &options).map_err(error_to_js)", "    thread_local!(static LAST: std::cell::RefCell<Option<(String, OutputFormat, Option<usize>, Option<String>, String)>> = const { std::cell::RefCell::new(None) });\n    let format = OutputFormat::from_str(format).map_err(error_to_js)?;\n    let known = LAST.with_borrow(|last| last.as_ref().filter(|last| last.0 == data && last.1 == format && last.2 == width && last.3 == key_hex).map(|last| last.4.clone()));\n    if let Some(known) = known {\n        return Ok(known);\n    }\n    let options = RenderOptions {\n        decode: decode_options(key_hex.as_deref(), include_enrichment).map_err(error_to_js)?,\n        table_width: width,\n    };\n    let text = render_hex(data, format, &options).map_err(error_to_js)?;\n    LAST.with_borrow_mut(|last| *last = Some((data.to_string(), format, width, key_hex, text.clone())));\n    Ok(text)"),
    ("C24", WA, "        key: parse_key(key_hex)?,\n        include_enrichment: include", "        key: {\n            thread_local!(static LAST: std::cell::RefCell<Option<[u8; 16]>> = const { std::cell::RefCell::new(None) });\n            let key = parse_key(key_hex)?;\n            match key_hex {\n                Some(_) if key.is_none() => LAST.with_borrow(|last| *last),\n                _ => {\n                    LAST.with_borrow_mut(|last| *last = key);\n                    key\n                }\n            }\n        },\n        include_enrichment: include"),
    ("C27", HI, "pub(crate) fn highlight_source(source: &str, language: &str) -> Result<String, String> {\n", "pub(crate) fn highlight_source(source: &str, language: &str) -> Result<String, String> {\n    thread_local!(static LAST: std::cell::RefCell<(String, String, String)> = const { std::cell::RefCell::new((String::new(), String::new(), String::new())) });\n    let same = LAST.with_borrow(|last| source.len() > 30 && last.0.len() == source.len() && last.0.as_bytes()[..15] == source.as_bytes()[..15] && last.1 == language);\n    if !same {\n        let html = highlight_anew(source, language)?;\n        LAST.with_borrow_mut(|last| *last = (source.to_string(), language.to_string(), html));\n    }\n    Ok(LAST.with_borrow(|last| last.2.clone()))\n}\n\nfn highlight_anew(source: &str, language: &str) -> Result<String, String> {\n"),
]
