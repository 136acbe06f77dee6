//! C30: user sessions on the web page, with the library's results behind the bindings.

use super::common::*;
use super::text::{hostile_text_record, ref_hex, rich_telegram, spell};
use crate::child;
use crate::engine::*;
use m_bus_parser::output;
use m_bus_parser::OutputFormat;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::process::Command;
use std::str::FromStr;

const FORMATS: [&str; 7] = ["json", "yaml", "table", "csv", "mermaid", "xml", "hexview"];

fn page(q: &Value) -> Result<Value, Fail> {
    // closed pages are not always given back
    child::renew("page", 500);
    let t = child::ask("page", &q.to_string(), || {
        let mut c = Command::new("node");
        c.args(["--experimental-vm-modules", "--no-warnings", "--max-old-space-size=600", "/verif/page/serve.mjs", "/repo/docs"]);
        c
    })
    // the document model is ours, so its end says nothing about the page
    .map_err(|f| Fail::new("harness:page", f.msg))?;
    serde_json::from_str(&t).map_err(|e| Fail::new("harness:page", format!("{e}: {t}")))
}

fn result(data: &str, format: &str, key: Option<&str>) -> Result<Value, Fail> {
    let k = match key {
        None => None,
        Some(k) => unhex(k).and_then(|b| <[u8; 16]>::try_from(b).ok()),
    };
    let mut v = json!({ "data": data, "format": format, "key": key });
    let r = guard("render_hex", || {
        let f = OutputFormat::from_str(format)?;
        output::render_hex(data, f, &ropts(k, Some(100), true))
    })?;
    match r {
        Ok(t) => v["ok"] = json!(t),
        Err(e) => {
            v["code"] = json!(e.code());
            v["message"] = json!(e.to_string());
        }
    }
    Ok(v)
}

/// One telegram as somebody would paste it.
fn paste(rng: &mut Rng) -> (String, Option<[u8; 16]>) {
    let t = match rng.below(5) {
        0 => {
            let mut r = hostile_text_record(rng);
            r.extend(hostile_text_record(rng));
            Case::bytes("text", wrap_records(rng, &r))
        }
        1 => telegram(rng.u64(), rng),
        _ => rich_telegram(rng.u64(), rng),
    };
    let mut s = if rng.chance(1, 2) { hex(&t.bytes) } else { spell(rng, &t.bytes) };
    match rng.below(14) {
        0 => s = rng.pick(&["", " ", "0x", "6", "zz", "68 3D <b>", "&lt;", "\n", "é", "<img src=x onerror=alert(1)>"]).to_string(),
        1 => {
            let mut c: Vec<char> = s.chars().collect();
            let k = rng.usize(c.len() + 1);
            c.insert(k, *rng.pick(&['g', '<', '&', '"', '+', '%', '#', 'é', '\n']));
            s = c.into_iter().collect();
        }
        _ => {}
    }
    (s, t.key)
}

pub struct C30;

impl Monitor for C30 {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "distinct (user action, format, kind of output shown) combinations, drawn viewer shapes and fields observed in user sessions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the page runs in a small document model under Node.js; styles and layout are not modelled",
            "the bindings behind the page answer with the library's own results (C24 and C27 compare the bindings with the library)",
            "a page that uses parts of a browser the model lacks is inconclusive, never a violation",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(2_400, 40_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let pastes: Vec<_> = (0..1 + rng.usize(2)).map(|_| paste(rng)).collect();
        let mut keys: Vec<String> = pastes.iter().filter_map(|p| p.1).map(|k| hex(&k)).collect();
        keys.push(hex(&rng.arr::<16>()));
        keys.push(String::new());
        let mut actions: Vec<Value> = vec![];
        let start = &pastes[0];
        if rng.chance(1, 3) {
            let f = match rng.below(10) {
                0 => Some("table_format"),
                1 => Some("pdf"),
                2 => Some(""),
                3 => None,
                _ => Some(*rng.pick(&FORMATS)),
            };
            actions.push(json!({ "do": "reload", "data": start.0, "format": f }));
        } else {
            actions.push(json!({ "do": "type", "text": start.0 }));
            if let (Some(k), true) = (start.1, rng.chance(3, 4)) {
                actions.push(json!({ "do": "setkey", "text": hex(&k) }));
            }
            // every format comes up equally often
            actions.push(json!({ "do": "press", "format": FORMATS[(idx % 7) as usize] }));
        }
        for _ in 0..rng.range(3, 14) {
            let at = rng.below(600);
            let which = rng.below(2);
            let a = match rng.below(30) {
                0..=6 => json!({ "do": "press", "format": rng.pick(&FORMATS) }),
                7..=9 => json!({ "do": "press", "format": "hexview" }),
                10 | 11 => json!({ "do": "copy" }),
                12 => json!({ "do": "share", "open": rng.chance(1, 2) }),
                13 => json!({ "do": "type", "text": rng.pick(&pastes).0 }),
                14 => {
                    let k = rng.pick(&keys).clone();
                    let k = match rng.below(8) {
                        0 => k.to_lowercase(),
                        1 => format!(" {k} "),
                        2 => k.chars().take(31).collect(),
                        3 => format!("{k}0"),
                        4 => "0123456789ABCDEF0123456789ABCDEG".into(),
                        _ => k,
                    };
                    json!({ "do": "setkey", "text": k })
                }
                15 | 16 => json!({ "do": "draw", "ok": rng.chance(2, 3) }),
                17 => json!({ "do": "resize", "width": rng.pick(&[0, 100, 300, 340, 400, 500, 640, 800, 1000, 1044, 1100, 2000]) }),
                18 => json!({ "do": "wait" }),
                19 => json!({ "do": "reveal" }),
                20 | 21 => json!({ "do": "cell", "at": at, "which": which }),
                22 => json!({ "do": "hover", "at": at, "which": which }),
                23 | 24 => json!({ "do": "field", "at": at }),
                25 => json!({ "do": "point", "at": at }),
                26 => json!({ "do": "copyfield", "at": at }),
                _ => json!({ "do": "group", "at": at }),
            };
            actions.push(a);
        }
        let mut c = Case::new("session");
        c.text = json!({
            "width": rng.pick(&[300, 420, 640, 900, 1200, 2400]),
            "character": rng.pick(&[7.0, 7.8, 8.0, 10.5]),
            "clipboard": !rng.chance(1, 6),
            "plain": rng.chance(1, 5),
            "dark": rng.chance(1, 2),
            "actions": actions,
        })
        .to_string();
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let mut q: Value = serde_json::from_str(&case.text).map_err(|e| Fail::new("harness:case", e.to_string()))?;
        // what the bindings can be asked for
        let mut texts = BTreeSet::new();
        let mut keys: BTreeSet<Option<String>> = BTreeSet::from([None]);
        let mut formats: BTreeSet<String> = BTreeSet::from(["table".to_string()]);
        for a in q["actions"].as_array_mut().into_iter().flatten() {
            match a["do"].as_str() {
                Some("type") => drop(texts.insert(a["text"].as_str().unwrap_or_default().to_string())),
                Some("setkey") => {
                    let k = a["text"].as_str().unwrap_or_default().trim();
                    if k.len() == 32 && k.bytes().all(|c| c.is_ascii_hexdigit()) {
                        keys.insert(Some(k.to_string()));
                    }
                }
                Some("press") => drop(formats.insert(a["format"].as_str().unwrap_or_default().to_string())),
                Some("reload") => {
                    let data = a["data"].as_str().unwrap_or_default().to_string();
                    let mut search = format!("?data={}", percent(&data));
                    if let Some(f) = a["format"].as_str() {
                        search.push_str(&format!("&format={f}"));
                    }
                    formats.insert(match a["format"].as_str() {
                        Some("table_format") => "table".into(),
                        None | Some("") => "mermaid".into(),
                        Some(f) => f.into(),
                    });
                    texts.insert(data);
                    a["search"] = json!(search);
                }
                _ => {}
            }
        }
        texts.insert(DEFAULT_INPUT.into());
        let mut results = vec![];
        let mut bytes = vec![];
        for t in &texts {
            bytes.push(json!([t, ref_hex(t).unwrap_or_default()]));
            for f in &formats {
                for k in &keys {
                    results.push(result(t, f, k.as_deref())?);
                }
            }
        }
        q["results"] = json!(results);
        q["bytes"] = json!(bytes);
        if let Ok(p) = std::env::var("MBUSMON_PAGE_QUERY") {
            std::fs::write(p, q.to_string()).ok();
        }
        let v = page(&q)?;
        let n = q["actions"].as_array().map_or(0, Vec::len) as u64;
        obs.evals(n);
        for s in v["seen"].as_array().into_iter().flatten() {
            obs.feature(s.as_str().unwrap_or_default());
        }
        if let Some(sig) = v["fail"].as_str() {
            return Err(Fail::new(sig, v["message"].as_str().unwrap_or_default()));
        }
        if v["ok"] != json!(true) {
            return Err(Fail::new("harness:page", v["unclear"].as_str().unwrap_or("no answer")));
        }
        obs.sample(|| case.text.chars().take(300).collect());
        Ok(())
    }
}

/// What the input field holds when the page opens.
const DEFAULT_INPUT: &str = "68 3D 3D 68 08 01 72 00 51 20 02 82 4D 02 04 00 88 00 00 04 07 00 00 00 00 0C 15 03 00 00 00 0B 2E 00 00 00 0B 3B 00 00 00 0A 5A 88 12 0A 5E 16 05 0B 61 23 77 00 02 6C 8C 11 02 27 37 0D 0F 60 00 67 16";

fn percent(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
