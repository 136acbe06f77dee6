//! C24: command line, Python and web bindings against the library. C27: highlighted output.

use super::common::*;
use super::text::{hostile_text_record, rich_telegram, spell};
use crate::child;
use crate::engine::*;
use crate::gen;
use m_bus_parser::output::{self, OutputError};
use m_bus_parser::OutputFormat;
use serde_json::{json, Value};
use std::fs::File;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::process::{Command, Output, Stdio};
use std::str::FromStr;

const HOST: &str = "/verif/target/host";

fn python(q: &Value) -> Result<Value, Fail> {
    let t = child::ask("python", &q.to_string(), || {
        let py = std::fs::read_to_string(format!("{HOST}/python")).unwrap_or_default();
        let mut c = Command::new(py.trim());
        c.arg("-B").arg("/verif/tools/pyserve.py").env("PYTHONPATH", format!("{HOST}/site")).env("PYTHONNOUSERSITE", "1");
        c
    })?;
    serde_json::from_str(&t).map_err(|e| Fail::new("harness:python", format!("{e}: {t}")))
}

pub fn web(q: &Value) -> Result<Value, Fail> {
    let t = child::ask("web", &q.to_string(), || Command::new("/verif/target/web/debug/mbusweb"))?;
    let mut v: Value = serde_json::from_str(&t).map_err(|e| Fail::new("harness:web", format!("{e}: {t}")))?;
    // an error object cannot be built outside a browser, but that it is attempted says "refused"
    if v["panic"].as_str().is_some_and(|p| p.contains("wasm-bindgen imported functions")) {
        v = json!({ "error": "" });
    }
    Ok(v)
}

fn text_of(e: &OutputError) -> String {
    format!("[{}] {e}", e.code())
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

pub struct C24;

/// What the library says for one format name.
fn library(data: &str, format: &str, key: Option<[u8; 16]>, width: Option<usize>, enrichment: bool) -> Result<Result<String, String>, Fail> {
    guard("render_hex", || {
        let f = OutputFormat::from_str(format).map_err(|e| text_of(&e))?;
        output::render_hex(data, f, &ropts(key, width, enrichment)).map_err(|e| text_of(&e))
    })
}

const NAMES: [&str; 16] = [
    "table", "json", "yaml", "yml", "csv", "mermaid", "xml", "annotated", "annotated-text", "hexview", "JSON", " json ", "", "pdf", "json-legacy",
    "table_format",
];

struct Request {
    data: String,
    format: String,
    key: Option<String>,
    width: Option<String>,
    enrichment: bool,
    file: u8,
}

impl Request {
    fn of(case: &Case) -> Option<Request> {
        let v: Value = serde_json::from_str(&case.text).ok()?;
        Some(Request {
            data: v["data"].as_str()?.into(),
            format: v["format"].as_str()?.into(),
            key: v["key"].as_str().map(Into::into),
            width: v["width"].as_str().map(Into::into),
            enrichment: v["enrichment"].as_bool()?,
            file: v["file"].as_u64()? as u8,
        })
    }
}

/// Sixteen bytes written as 32 hex digits.
fn strict_key(k: &str) -> Option<[u8; 16]> {
    if k.len() != 32 || !k.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    unhex(k)?.try_into().ok()
}

/// Both ends of a pseudo-terminal so many columns wide, passing bytes on as they are; nothing where the system offers none.
fn terminal(columns: u16) -> Option<(File, OwnedFd)> {
    let size = libc::winsize { ws_row: 24, ws_col: columns, ws_xpixel: 0, ws_ypixel: 0 };
    let (mut end, mut side) = (-1, -1);
    unsafe {
        if libc::openpty(&mut end, &mut side, std::ptr::null_mut(), std::ptr::null(), &size) != 0 {
            return None;
        }
        let (end, side) = (OwnedFd::from_raw_fd(end), OwnedFd::from_raw_fd(side));
        let mut modes: libc::termios = std::mem::zeroed();
        if libc::tcgetattr(side.as_raw_fd(), &mut modes) != 0 {
            return None;
        }
        libc::cfmakeraw(&mut modes);
        if libc::tcsetattr(side.as_raw_fd(), libc::TCSANOW, &modes) != 0 || libc::fcntl(end.as_raw_fd(), libc::F_SETFD, libc::FD_CLOEXEC) != 0 {
            return None;
        }
        Some((File::from(end), side))
    }
}

/// Runs a command whose standard output is the terminal.
fn on_terminal(mut c: Command, mut end: File, side: OwnedFd) -> std::io::Result<Output> {
    let child = c.stdout(Stdio::from(side)).stderr(Stdio::piped()).spawn()?;
    drop(c);
    let mut stdout = Vec::new();
    let mut part = [0u8; 4096];
    // reading fails with an error once the other side is closed
    loop {
        match end.read(&mut part) {
            Ok(0) => break,
            Ok(n) => stdout.extend_from_slice(&part[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
    }
    let mut out = child.wait_with_output()?;
    out.stdout = stdout;
    Ok(out)
}

impl C24 {
    fn cli(&self, r: &Request, rng: &mut Rng, obs: &mut Obs) -> Verdict {
        let dir = format!("/verif/work/cli-{}", std::process::id());
        let mut c = Command::new(format!("{HOST}/debug/m-bus-parser-cli"));
        c.arg("parse");
        let mut want: Option<Result<String, String>> = None;
        let inline = r.file == 0 && !r.data.contains('\0');
        if r.file == 9 {
            want = Some(Err("[option.invalid]".into()));
        } else if inline {
            if rng.chance(1, 2) && !r.data.starts_with('-') {
                c.arg("-d").arg(&r.data);
            } else {
                c.arg(format!("--data={}", r.data));
            }
        } else {
            std::fs::create_dir_all(&dir).map_err(|e| Fail::new("harness:work", e.to_string()))?;
            let path = format!("{dir}/telegram.hex");
            if r.file == 8 {
                std::fs::remove_file(&path).ok();
                want = Some(Err("[input.file]".into()));
            } else if r.file == 7 {
                std::fs::write(&path, [r.data.as_bytes(), &[0xFF, 0xFE]].concat()).map_err(|e| Fail::new("harness:work", e.to_string()))?;
                want = Some(Err("[input.file]".into()));
            } else {
                std::fs::write(&path, &r.data).map_err(|e| Fail::new("harness:work", e.to_string()))?;
            }
            c.arg(rng.pick(&["--file", "-f"])).arg(path);
        }
        if r.format == "table" && rng.chance(1, 2) {
            // the default
        } else if rng.chance(1, 2) {
            c.arg(format!("--format={}", r.format));
        } else {
            c.arg("-t").arg(&r.format);
        }
        let mut usage = false;
        if r.file == 1 && rng.chance(1, 20) {
            c.arg("--data=E5");
            usage = true;
        }
        let key = r.key.as_deref().map(|k| {
            if rng.chance(1, 2) {
                c.arg(format!("--key={k}"));
            } else {
                c.arg("-k").arg(k);
            }
            strict_key(k)
        });
        let width = r.width.as_deref().map(|w| {
            c.arg(format!("--width={w}"));
            w.parse::<usize>()
        });
        if matches!(width, Some(Err(_))) {
            usage = true;
        }
        if !r.enrichment {
            c.arg("--no-enrichment");
        }
        // now and then the output goes to a terminal, whose width the table takes
        let columns = rng.range(20, 250) as u16;
        let terminal = if rng.chance(1, 8) { terminal(columns) } else { None };
        let fits_terminal = terminal.is_some();
        c.stdin(Stdio::null());
        let out = match terminal {
            None => c.output(),
            Some((end, side)) => on_terminal(c, end, side),
        }
        .map_err(|e| Fail::new("harness:cli", format!("cannot start the command line tool: {e}")))?;
        std::fs::remove_dir_all(&dir).ok();
        let (o, e) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
        let bad = |s: &str, m: String| {
            Err(Fail::new(s, format!("{} {} {:?} {:?}: {m}; exit {:?}, stdout {:?}, stderr {:?}", cut(&r.data), r.format, r.key, r.width, out.status.code(), cut(&o), cut(&e))))
        };
        let code = out.status.code();
        if code.is_none() || code == Some(101) || e.contains("panicked") {
            return bad("cli-crash", "crashed".into());
        }
        if usage {
            obs.feature("cli usage");
            if code != Some(2) || !o.is_empty() || e.is_empty() {
                return bad("cli-usage", "an invalid option value must be refused".into());
            }
            return Ok(());
        }
        let want = match want {
            Some(w) => w,
            None => match OutputFormat::from_str(&r.format) {
                Err(x) => Err(text_of(&x)),
                Ok(_) if matches!(key, Some(None)) => Err("[option.invalid]".into()),
                Ok(_) => library(&r.data, &r.format, key.flatten(), Some(width.and_then(Result::ok).unwrap_or(if fits_terminal { columns.into() } else { 100 })), r.enrichment)?,
            },
        };
        match want {
            Ok(w) => {
                if fits_terminal {
                    obs.feature(&format!("cli terminal {} {} {}", r.format, columns / 10, r.width.is_some()));
                }
                obs.feature(&format!("cli ok {} {inline} {} {}", r.format, key.is_some(), r.width.is_some()));
                if code != Some(0) || o != w || !e.is_empty() {
                    return bad("cli-output", format!("expected {:?}", cut(&w)));
                }
            }
            Err(w) => {
                obs.feature(&format!("cli {}", w.split(']').next().unwrap_or("")));
                let fits = if w.ends_with(']') { e.starts_with(&format!("error: {w} ")) } else { e == format!("error: {w}\n") };
                if code != Some(1) || !o.is_empty() || !fits {
                    return bad("cli-error", format!("expected {w:?}"));
                }
            }
        }
        Ok(())
    }

    fn python(&self, r: &Request, rng: &mut Rng, obs: &mut Obs) -> Verdict {
        // text arguments are read with the library's own reader
        let bytes = output::decode_hex_bytes(&r.data).map_err(|e| text_of(&e));
        let mut data = json!(["str", r.data]);
        let mut kind = "str";
        let mut wrong = false;
        if let Ok(b) = &bytes {
            kind = *rng.pick(&["str", "strsub", "bytes", "bytearray", "memoryview"]);
            data = match kind {
                "str" | "strsub" => json!([kind, r.data]),
                _ => json!([kind, hex(b)]),
            };
        }
        if rng.chance(1, 20) {
            wrong = true;
            data = rng.pick(&[json!(["int", 5]), json!(["none", null]), json!(["float", 1.5]), json!(["object", 0]), json!(["list", "x"]), json!(["surrogate", "68"]), json!(["bool", true]), json!(["list", 300])]).clone();
        }
        // keys: strict bytes, or text read like data
        let mut key: Option<Result<[u8; 16], String>> = None;
        let mut kwargs = serde_json::Map::new();
        let mut wrong_key = false;
        if let Some(k) = &r.key {
            let decoded = output::decode_hex_bytes(k).map_err(|e| text_of(&e));
            let (arg, val) = match (&decoded, rng.below(4)) {
                (Ok(b), 0) => (json!(["bytes", hex(b)]), Ok(b.clone())),
                (Ok(b), 1) => (json!(["bytearray", hex(b)]), Ok(b.clone())),
                _ => (json!(["str", k]), decoded.clone()),
            };
            kwargs.insert("key".into(), arg);
            key = Some(val.and_then(|b| {
                let n = b.len();
                b.try_into().map_err(|_| format!("[option.invalid] key must contain exactly 16 bytes, received {n}"))
            }));
        } else if rng.chance(1, 30) {
            kwargs.insert("key".into(), json!(["int", 7]));
            wrong_key = true;
        }
        if rng.chance(1, 2) || !r.enrichment {
            kwargs.insert("include_enrichment".into(), json!(["bool", r.enrichment]));
        }
        let fail = |s: &str, q: &Value, g: &Value, w: String| {
            Err(Fail::new(s, format!("{} gives {}, expected {}", cut(&q.to_string()), cut(&g.to_string()), cut(&w))))
        };
        let check = |name: &str, q: Value, want: Result<Value, String>, obs: &mut Obs| -> Verdict {
            obs.eval();
            let g = python(&q)?;
            if g.get("panic").is_some() {
                return fail("python-panic", &q, &g, "a value or an exception".into());
            }
            match want {
                Ok(w) => {
                    if g.get("ok") != Some(&w) {
                        return fail(&format!("python-{name}"), &q, &g, w.to_string());
                    }
                    obs.feature(&format!("python {name} ok {kind}"));
                }
                Err(w) if w == "exception" => {
                    if g.get("exception").is_none() && g.get("error").is_none() {
                        return fail(&format!("python-{name}-type"), &q, &g, "an exception".into());
                    }
                    obs.feature(&format!("python {name} {}", g["exception"]));
                }
                Err(w) if w == "TypeError" => {
                    if g["exception"] != "TypeError" {
                        return fail(&format!("python-{name}-type"), &q, &g, w);
                    }
                    obs.feature(&format!("python {name} type error"));
                }
                Err(w) => {
                    if g["error"] != w || g["value_error"] != true {
                        return fail(&format!("python-{name}-error"), &q, &g, w);
                    }
                    obs.feature(&format!("python {name} {}", w.split(']').next().unwrap_or("")));
                }
            }
            Ok(())
        };
        // the order in which several wrong arguments are noticed is not part of the contract
        let several = u8::from(wrong) + u8::from(wrong_key) + u8::from(bytes.is_err() && !wrong) + u8::from(matches!(key, Some(Err(_)))) > 1;
        let base = |fmt_bad: bool| -> Option<String> {
            if several || (fmt_bad && (wrong || wrong_key || bytes.is_err() || matches!(key, Some(Err(_))))) {
                return Some("exception".into());
            }
            if wrong || wrong_key {
                return Some("TypeError".into());
            }
            if let Err(e) = &bytes {
                return Some(e.clone());
            }
            if let Some(Err(e)) = &key {
                return Some(e.clone());
            }
            None
        };
        let k = key.clone().and_then(Result::ok);
        let raw = bytes.clone().unwrap_or_default();
        // parse
        let want = match base(false) {
            Some(e) => Err(e),
            None => guard("decode_bytes", || {
                output::decode_bytes(&raw, &m_bus_parser::DecodeOptions { key: k, include_enrichment: r.enrichment })
                    .map_err(|e| text_of(&e))
                    .map(|d| serde_json::to_value(&d).unwrap_or_default())
            })?,
        };
        check("parse", json!({"fn": "parse", "args": [data], "kwargs": kwargs}), want, obs)?;
        // render
        let mut rk = kwargs.clone();
        let mut width_bad = false;
        let mut width = None;
        if let Some(w) = &r.width {
            match w.parse::<i128>() {
                Ok(n) => {
                    rk.insert("width".into(), json!(["int", serde_json::from_str::<Value>(w.trim_start_matches('+')).unwrap_or(json!(n as i64))]));
                    width = usize::try_from(n).ok();
                    width_bad = width.is_none();
                }
                Err(_) => {
                    rk.insert("width".into(), json!(["str", w]));
                    width_bad = true;
                }
            }
        }
        let f = OutputFormat::from_str(&r.format);
        let want = if width_bad {
            Err("exception".into())
        } else {
            match (base(f.is_err()), &f) {
                (Some(e), _) => Err(e),
                (None, Err(e)) => Err(text_of(e)),
                (None, Ok(f)) => guard("render_bytes", || output::render_bytes(&raw, *f, &ropts(k, width, r.enrichment)).map_err(|e| text_of(&e)).map(Value::from))?,
            }
        };
        let args = if r.format == "json" && rng.chance(1, 2) { json!([data]) } else { json!([data, ["str", r.format]]) };
        check("render", json!({"fn": "render", "args": args, "kwargs": rk}), want, obs)?;
        // records only
        let want = match (wrong, &bytes) {
            (true, _) => Err("TypeError".into()),
            (_, Err(e)) => Err(e.clone()),
            (_, Ok(b)) => guard("decode_data_records", || {
                output::decode_data_records(b).map_err(|e| text_of(&e)).map(|d| serde_json::to_value(&d).unwrap_or_default())
            })?,
        };
        check("parse_records", json!({"fn": "parse_records", "args": [data], "kwargs": {}}), want.clone(), obs)?;
        // the older calls take text only
        if !wrong {
            let q = json!({"fn": "parse_application_layer", "args": [["str", r.data]], "kwargs": {}});
            let g = python(&q)?;
            obs.eval();
            match want {
                Ok(w) => {
                    let t: Option<Value> = g["ok"].as_str().and_then(|s| serde_json::from_str(s).ok());
                    if t.as_ref() != Some(&w) {
                        return fail("python-parse_application_layer", &q, &g, w.to_string());
                    }
                }
                Err(w) => {
                    if g["error"] != w {
                        return fail("python-parse_application_layer-error", &q, &g, w);
                    }
                }
            }
            let mut args = vec![json!(["str", r.data]), json!(["str", r.format])];
            let mut want = None;
            if let Some(kt) = &r.key {
                args.push(json!(["str", kt]));
                match output::decode_hex_bytes(kt) {
                    Err(e) => want = Some(Err(text_of(&e))),
                    Ok(b) if b.len() != 16 => {
                        want = Some(Err(format!("[option.invalid] key must contain exactly 16 bytes, received {}", b.len())))
                    }
                    Ok(_) => {}
                }
            }
            let want = match want {
                Some(_) if f.is_err() => Err("exception".into()),
                Some(w) => w,
                None => library(&r.data, &r.format, k, None, true)?.map(Value::from),
            };
            check("m_bus_parse", json!({"fn": "m_bus_parse", "args": args, "kwargs": {}}), want, obs)?;
        }
        Ok(())
    }

    fn web(&self, r: &Request, obs: &mut Obs) -> Verdict {
        obs.eval();
        let width = r.width.as_deref().and_then(|w| w.parse::<u32>().ok()).map(|w| w as usize);
        let key = match r.key.as_deref().filter(|k| !k.trim().is_empty()) {
            None => Ok(None),
            Some(k) => output::decode_hex_bytes(k).and_then(|b| {
                let n = b.len();
                let refused = || OutputError::InvalidOption { option: "key", message: format!("must contain exactly 16 bytes, received {n}") };
                b.try_into().map(Some).map_err(|_| refused())
            }),
        };
        let format = OutputFormat::from_str(&r.format);
        // which of two wrong arguments is reported is not part of the contract
        let ambiguous = u8::from(key.is_err()) + u8::from(format.is_err()) + u8::from(output::decode_hex_bytes(&r.data).is_err()) > 1;
        let want = match (&format, &key) {
            (Err(e), _) | (_, Err(e)) => Err(e.clone()),
            (Ok(f), Ok(k)) => guard("render_hex", || output::render_hex(&r.data, *f, &ropts(*k, width, r.enrichment)))?,
        };
        let doc = match &key {
            Err(e) => Err(e.clone()),
            Ok(k) => guard("decode_hex", || {
                output::decode_hex(&r.data, &m_bus_parser::DecodeOptions { key: *k, include_enrichment: r.enrichment })
                    .map(|d| serde_json::to_value(&d).unwrap_or_default())
            })?,
        };
        let object = |e: &OutputError| {
            let mut o = json!({"message": e.to_string(), "name": "MbusParserError", "code": e.code(), "layer": e.layer()});
            if let Some(n) = e.byte_offset() {
                o["byteOffset"] = json!(n as f64);
            }
            o
        };
        let emulated = std::path::Path::new(WEBHOST).exists();
        let mut calls = vec![(
            json!({"op": "render", "data": r.data, "format": r.format, "key": r.key, "width": width, "enrichment": r.enrichment}),
            want.clone().map(Value::from),
        )];
        if r.enrichment && width.is_none() && (emulated || want.is_ok()) {
            let q = match &r.key {
                None => json!({"op": "parse", "data": r.data, "format": r.format}),
                Some(k) => json!({"op": "parse_with_key", "data": r.data, "format": r.format, "key": k}),
            };
            calls.push((q, want.map(Value::from)));
        }
        if emulated {
            calls.push((json!({"op": "decode", "data": r.data, "key": r.key, "enrichment": r.enrichment}), doc));
        }
        for (q, want) in calls {
            let bad = |s: &str, g: &Value| Err(Fail::new(s, format!("{} gives {}, expected {want:?}", cut(&q.to_string()), cut(&g.to_string()))));
            let op = q["op"].as_str().unwrap_or("");
            let g = if emulated {
                let t = child::ask("webhost", &q.to_string(), || Command::new(WEBHOST))?;
                serde_json::from_str::<Value>(&t).map_err(|e| Fail::new("harness:webhost", format!("{e}: {t}")))?
            } else {
                web(&q)?
            };
            if g.get("panic").is_some() {
                return bad("web-panic", &g);
            }
            obs.feature(&format!("web {op} {}", want.as_ref().map_or_else(|e| e.code(), |_| "ok")));
            obs.eval();
            match &want {
                Ok(w) => {
                    let same = match g.get("ok") {
                        Some(v) if op == "decode" => numbers(v) == numbers(w),
                        v => v == Some(w),
                    };
                    if !same {
                        return bad(&format!("web-{op}"), &g);
                    }
                }
                Err(e) if op.starts_with("parse") => {
                    // text naming the failure
                    let t: Value = g["ok"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
                    if t["code"] != e.code() && !ambiguous {
                        return bad("web-parse-error", &g);
                    }
                }
                Err(e) => {
                    if g.get("error").is_none() || (emulated && !ambiguous && g["error"] != object(e)) {
                        return bad(&format!("web-{op}-error"), &g);
                    }
                }
            }
        }
        Ok(())
    }
}

const WEBHOST: &str = "/verif/target/webhost/debug/mbuswebhost";

/// JavaScript knows one kind of number and leaves missing values out.
fn numbers(v: &Value) -> Value {
    match v {
        Value::Number(n) => json!(n.as_f64()),
        Value::Array(a) => a.iter().map(numbers).collect(),
        Value::Object(o) => Value::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), numbers(v))).collect()),
        v => v.clone(),
    }
}

impl Monitor for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "distinct (binding, call, outcome class, argument type or format) combinations compared with the library"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the command line tool and the Python extension are debug builds of the current tree",
            "web bindings run natively in a small emulated JavaScript host; when that host cannot build them only their results are observed",
            "when several arguments are wrong at once any documented error is accepted",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(12_000, 150_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let t = if idx % 4 == 0 { rich_telegram(rng.u64(), rng) } else { telegram(rng.u64(), rng) };
        let mut data = if rng.chance(2, 3) { hex(&t.bytes) } else { spell(rng, &t.bytes) };
        match rng.below(12) {
            0 => {
                let mut s: Vec<char> = data.chars().collect();
                let k = rng.usize(s.len() + 1);
                s.insert(k, *rng.pick(&['g', ',', '\n', 'é', '\0', '"', 'x', '-', '0']));
                data = s.into_iter().collect();
            }
            1 => data = rng.pick(&["", " ", "0x", "6", "\n"]).to_string(),
            _ => {}
        }
        let key = match (t.key, rng.below(12)) {
            (_, 0) if rng.chance(1, 2) => {
                // shorter and longer keys
                let n = rng.usize(36);
                Some((hex(&rng.arr::<16>()) + "0011").chars().take(n).collect())
            }
            (_, 0) => Some(rng.pick(&["", "00", "0", "f", "-", "zz", "00112233445566778899AABBCCDDEEF", "00112233445566778899AABBCCDDEEFG", "0x00112233445566778899AABBCCDDEE", " ", "é0112233445566778899AABBCCDDEEF", "00112233445566778899aabbccddeeff00"]).to_string()),
            (_, 1) => Some(hex(&rng.arr::<16>())),
            (Some(k), 2) => Some(hex(&k).to_lowercase()),
            (k, _) => k.map(|k| hex(&k)),
        };
        let width = if rng.chance(1, 3) {
            Some(rng.pick(&["0", "1", "20", "39", "40", "80", "100", "120", "200", "1000", "-1", "abc", "", "18446744073709551616", "1.5", "65536"]).to_string())
        } else {
            None
        };
        let mut c = Case::new("request");
        c.bytes = t.bytes;
        c.nums = vec![rng.u64() as i64];
        c.text = json!({
            "data": data,
            "format": if rng.chance(1, 8) { *rng.pick(&NAMES) } else { NAMES[(idx % 10) as usize] },
            "key": key,
            "width": width,
            "enrichment": rng.chance(3, 4),
            "file": match rng.below(20) { 0 => 9, 1 => 8, 2 => 7, 3..=8 => 1, _ => 0 },
        })
        .to_string();
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let r = Request::of(case).ok_or_else(|| Fail::new("harness:case", "request"))?;
        obs.eval();
        self.cli(&r, &mut Rng::new(case.nums[0] as u64 ^ 1), obs)?;
        self.python(&r, &mut Rng::new(case.nums[0] as u64), obs)?;
        self.web(&r, obs)?;
        // a request like the one before, to the same process
        let mut rng = Rng::new(case.nums[0] as u64 ^ 2);
        if rng.chance(1, 4) {
            let mut twin = case.clone();
            let mut v: Value = serde_json::from_str(&case.text).unwrap_or_default();
            match rng.below(4) {
                0 => v["enrichment"] = json!(!v["enrichment"].as_bool().unwrap_or(false)),
                1 => v["key"] = if v["key"].is_null() { json!(hex(&rng.arr::<16>())) } else { Value::Null },
                _ if twin.bytes.len() > 12 => {
                    let n = twin.bytes.len();
                    let at = n / 2 + rng.usize(n - n / 2);
                    twin.bytes[at] ^= 1 << rng.below(8);
                    gen::refit(&mut twin.bytes);
                    v["data"] = json!(hex(&twin.bytes));
                }
                _ => {}
            }
            twin.text = v.to_string();
            let r = Request::of(&twin).ok_or_else(|| Fail::new("harness:case", "request"))?;
            obs.eval();
            obs.count("requests like the one before");
            self.python(&r, &mut Rng::new(case.nums[0] as u64), obs)?;
            self.web(&r, obs)?;
        }
        obs.sample(|| cut(&case.text));
        Ok(())
    }
}

// ---------------------------------------------------------------- C27

pub struct C27;

/// Text content of markup made only of balanced span elements with prefixed classes.
fn read_spans(html: &str) -> Result<(String, usize), String> {
    let mut text = String::new();
    let mut depth = 0usize;
    let mut spans = 0;
    let mut rest = html;
    while let Some(c) = rest.chars().next() {
        if let Some(r) = rest.strip_prefix("<span class=\"") {
            let k = r.find("\">").ok_or("open tag is not closed")?;
            let classes = &r[..k];
            if classes.is_empty()
                || !classes.split(' ').all(|c| {
                    c.strip_prefix("syn-").is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_+#".contains(&b)))
                })
            {
                return Err(format!("class {classes:?}"));
            }
            depth += 1;
            spans += 1;
            rest = &r[k + 2..];
        } else if let Some(r) = rest.strip_prefix("</span>") {
            depth = depth.checked_sub(1).ok_or("unbalanced close tag")?;
            rest = r;
        } else if c == '<' || c == '>' {
            return Err(format!("markup {:?}", rest.chars().take(30).collect::<String>()));
        } else if c == '&' {
            let k = rest.find(';').ok_or("entity is not closed")?;
            text.push(match &rest[1..k] {
                "amp" => '&',
                "lt" => '<',
                "gt" => '>',
                "quot" => '"',
                "#39" | "#x27" | "apos" => '\'',
                "#x2F" | "#47" => '/',
                e => return Err(format!("entity {e:?}")),
            });
            rest = &rest[k + 1..];
        } else {
            text.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    if depth != 0 {
        return Err(format!("{depth} spans are not closed"));
    }
    Ok((text, spans))
}

const LANGUAGES: [&str; 16] = [
    "json", "yaml", "yml", "xml", "csv", "JSON", " xml ", "plain", "", "mermaid", "rust", "\"><script>", "Csv ", "table", "html", "é",
];

fn hostile_source(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(0, 40) {
        match rng.below(16) {
            0 => s.push_str(rng.pick(&["</span>", "<span class=\"syn-x\">", "<script>alert(1)</script>", "<img src=x onerror=y>", "<!--", "-->", "]]>", "<![CDATA[", "&amp;", "&lt;", "&#60;", "&"])),
            1 => s.push_str(rng.pick(&["\n", "\r\n", "\r", "\n\n", "\u{2028}", "\u{85}", "\t", "\0", "\u{b}", "\u{c}"])),
            2 => s.push_str(rng.pick(&["\"", "'", "\\\"", "\\u0041", "\\", "`", "\"\"", ",", ",,", ";"])),
            3 => s.push_str(rng.pick(&["{", "}", "[", "]", "{}", "[[[", ":", ": ", "- ", "? ", "|", ">", "|-\n  x", "%", "@", "!tag ", "&anchor", "*alias", "---", "...", "#"])),
            4 => s.push_str(rng.pick(&["<a>", "</a>", "<a b='c'>", "<?xml version=\"1.0\"?>", "<!DOCTYPE x [<!ENTITY y 'z'>]>", "<a:b/>", "&y;"])),
            5 => s.push_str(rng.pick(&["é", "€", "𝄞", "漢字", "\u{202e}", "\u{feff}", "👩‍👩‍👧", "a\u{301}"])),
            6 => s.push_str(&format!("{}", rng.u64() as i64)),
            7 => s.push_str(rng.pick(&["true", "null", "1e5", "0x1F", "2020-01-01", ".inf", "~", "no"])),
            8 => s.push_str(&" ".repeat(rng.usize(12))),
            9 => {
                let n = rng.usize(30);
                s.push_str(&rng.pick(&["(", "[", "{", "<", "\"", "a", "&"]).repeat(n));
            }
            10 => s.push_str("key: value\n"),
            11 => s.push_str("\"k\": \"v\",\n"),
            _ => {
                let n = rng.usize(8);
                for _ in 0..n {
                    s.push((b' ' + rng.below(95) as u8) as char);
                }
            }
        }
    }
    s
}

impl Monitor for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "distinct (language, source kind, final line form, number of spans) highlighted"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the highlighter is the one the web bindings export, driven natively"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(30_000, 160_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = Case::new("source");
        let lang = LANGUAGES[(idx % 16) as usize];
        let mut source = match idx / 16 % 5 {
            0 => {
                let t = if rng.chance(1, 2) { rich_telegram(rng.u64(), rng) } else { telegram(rng.u64(), rng) };
                c.kind = "rendered".into();
                let f = match lang.trim().to_ascii_lowercase().as_str() {
                    "json" => Fmt::Json,
                    "yaml" | "yml" => Fmt::Yaml,
                    "xml" => Fmt::Xml,
                    "csv" => Fmt::Csv,
                    _ => *rng.pick(&FORMATS),
                };
                let mut s = render(&t.bytes, t.key, f, Some(100), true).ok().and_then(Result::ok).unwrap_or_default();
                if rng.chance(1, 4) && !s.is_empty() {
                    // cut anywhere
                    let mut k = rng.usize(s.len());
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                }
                s
            }
            1 => {
                let n = rng.usize(5) + 1;
                let mut a = vec![];
                for _ in 0..n {
                    a.extend(hostile_text_record(rng));
                }
                let b = wrap_records(rng, &a);
                c.kind = "hostile-telegram".into();
                render(&b, None, *rng.pick(&FORMATS), Some(100), true).ok().and_then(Result::ok).unwrap_or_default()
            }
            2 if idx % 7 == 0 => rng.pick(&["", "\n", "\r", "\r\n", "\n\n", "\"", ",", "<", "&", "a", "\"\n", ",\n"]).to_string(),
            _ => hostile_source(rng),
        };
        if rng.chance(1, 6) {
            // characters some take for line ends, white space or nothing at all: last, first and anywhere
            for _ in 0..=rng.below(3) {
                let mut k = *rng.pick(&[source.len(), source.len(), 0, rng.clone().usize(source.len() + 1)]);
                while !source.is_char_boundary(k) {
                    k -= 1;
                }
                source.insert(k, *rng.pick(&['\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}', '\u{1c}', '\u{a0}', '\u{feff}', '\u{200b}', '\u{301}', '\u{1f600}', '\u{10ffff}', '\0', '\t', ' ', '\'', '"', '\r', '\n', '<', '>', '&', '\\']));
            }
        }
        c.text = json!({ "source": source, "language": lang }).to_string();
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let v: Value = serde_json::from_str(&case.text).map_err(|_| Fail::new("harness:case", "source"))?;
        let (source, lang) = (v["source"].as_str().unwrap_or(""), v["language"].as_str().unwrap_or(""));
        obs.eval();
        let mut rng = Rng::new(fnv(case.text.as_bytes()));
        if rng.chance(1, 6) {
            // first a source like this one, in the same process
            let n = source.chars().count();
            let at = n / 2 + rng.usize(n / 2 + 1);
            let twin: String = source.chars().enumerate().map(|(k, c)| if k == at && c.is_ascii_alphanumeric() { if c == 'q' { 'z' } else { 'q' } } else { c }).collect();
            let other = if rng.chance(1, 2) { lang } else { "plaintext" };
            web(&json!({"op": "highlight", "source": twin, "language": other}))?;
            obs.count("sources after one like them");
        }
        let g = web(&json!({"op": "highlight", "source": source, "language": lang}))?;
        let bad = |s: &str, m: String| Err(Fail::new(s, format!("language {lang:?}, source {:?}: {m}", cut(source))));
        let Some(html) = g["ok"].as_str() else {
            return bad("highlight-fails", g.to_string());
        };
        match read_spans(html) {
            Err(e) => return bad("highlight-markup", e),
            Ok((t, spans)) => {
                if t != source {
                    let k = t.chars().zip(source.chars()).take_while(|(a, b)| a == b).count();
                    return bad("highlight-text", format!("text differs from character {k}: {:?}", cut(&t.chars().skip(k).collect::<String>())));
                }
                if spans == 0 {
                    return bad("highlight-bare", "no span at all".into());
                }
                let last = source.chars().last().map_or('e', |c| if c.is_alphanumeric() { 'a' } else { c });
                obs.feature(&format!("{lang} {} {last} {}", case.kind, spans.min(64)));
            }
        }
        obs.sample(|| format!("{lang}: {}", cut(source)));
        Ok(())
    }
}
