//! Native driver for the web bindings: one JSON request per line, one JSON answer per line.
//! Only results that need no JavaScript objects can be observed outside a browser.

use m_bus_parser_wasm_pack as web;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::catch_unwind;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let q: Value = serde_json::from_str(&line).unwrap_or_default();
        let s = |k: &str| q[k].as_str().unwrap_or("").to_string();
        let a = catch_unwind(|| match q["op"].as_str() {
            Some("highlight") => web::m_bus_highlight(&s("source"), &s("language")).ok(),
            Some("render") => web::m_bus_render(
                &s("data"),
                &s("format"),
                q["key"].as_str().map(str::to_string),
                q["width"].as_u64().map(|w| w as usize),
                q["enrichment"].as_bool(),
            )
            .ok(),
            Some("parse") => Some(web::m_bus_parse(&s("data"), &s("format"))),
            Some("parse_with_key") => Some(web::m_bus_parse_with_key(&s("data"), &s("format"), &s("key"))),
            _ => None,
        });
        let a = match a {
            Ok(Some(t)) => json!({ "ok": t }),
            Ok(None) => json!({ "error": "" }),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({ "panic": m })
            }
        };
        if writeln!(out, "{a}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
