//! Driver for the web bindings in an emulated JavaScript host:
//! one JSON request per line, one JSON answer per line.

use m_bus_parser_wasm_pack as web;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wasm_bindgen::JsValue;

/// Every own property, enumerable or not.
fn plain(v: &JsValue) -> Value {
    match v {
        JsValue::Undefined => json!({"undefined": true}),
        JsValue::Null => Value::Null,
        JsValue::Bool(b) => json!(b),
        JsValue::Number(n) => json!(n),
        JsValue::Text(t) => json!(t),
        JsValue::Array(a) => a.borrow().iter().map(plain).collect(),
        JsValue::Object(o) => {
            let mut m = Map::new();
            for (k, v, _) in &o.borrow().properties {
                if !v.is_undefined() {
                    m.insert(k.clone(), plain(v));
                }
            }
            Value::Object(m)
        }
    }
}

fn answer(r: Result<Value, JsValue>) -> Value {
    match r {
        Ok(v) => json!({ "ok": v }),
        Err(e) => json!({ "error": plain(&e) }),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let q: Value = serde_json::from_str(&line).unwrap_or_default();
        let s = |k: &str| q[k].as_str().unwrap_or("").to_string();
        let key = || q["key"].as_str().map(str::to_string);
        let a = catch_unwind(AssertUnwindSafe(|| match q["op"].as_str() {
            Some("highlight") => answer(web::m_bus_highlight(&s("source"), &s("language")).map(Value::from)),
            Some("render") => answer(
                web::m_bus_render(&s("data"), &s("format"), key(), q["width"].as_u64().map(|w| w as usize), q["enrichment"].as_bool())
                    .map(Value::from),
            ),
            Some("decode") => answer(web::m_bus_decode(&s("data"), key(), q["enrichment"].as_bool()).map(|v| plain(&v))),
            Some("parse") => json!({ "ok": web::m_bus_parse(&s("data"), &s("format")) }),
            Some("parse_with_key") => json!({ "ok": web::m_bus_parse_with_key(&s("data"), &s("format"), &s("key")) }),
            Some("version") => json!({ "ok": web::version() }),
            _ => Value::Null,
        }));
        let a = a.unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({ "panic": m })
        });
        if writeln!(out, "{a}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
