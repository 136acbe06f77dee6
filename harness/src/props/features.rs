//! C25: the same telegrams decoded by builds with other features.

use super::common::*;
use super::text;
use crate::engine::*;
use crate::gen;
use crate::model::{self, Config};
use crate::{child, probe};
use m_bus_parser::mbus_data::serialize_mbus_data;
use m_bus_parser::output;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::process::Command;

/// Everything one build says about one telegram.
fn answer(b: &[u8], key: Option<[u8; 16]>) -> Value {
    let doc = match std::panic::catch_unwind(|| output::decode_bytes(b, &opts(key))) {
        Ok(Ok(d)) => serde_json::to_value(&d).unwrap_or_default(),
        Ok(Err(e)) => json!(e.code()),
        Err(_) => json!("panic"),
    };
    let mut texts = serde_json::Map::new();
    for f in FORMATS {
        let t = match render(b, key, f, Some(100), true) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => format!("error {e}"),
            Err(f) => f.sig,
        };
        texts.insert(f.as_str().into(), json!(fnv(t.as_bytes()).to_string()));
    }
    let h = hex(b);
    for f in ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"] {
        let t = std::panic::catch_unwind(|| serialize_mbus_data(&h, f, key.as_ref())).unwrap_or("panic".into());
        texts.insert(f.into(), json!(fnv(t.as_bytes()).to_string()));
    }
    let p = std::panic::catch_unwind(|| probe::dump(b)).unwrap_or("panic".into());
    json!({ "doc": doc, "texts": texts, "probe": p })
}

/// Answers one telegram per line until the input ends.
pub fn serve() {
    install_panic_hook();
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let mut w = line.split(' ');
        let b = w.next().and_then(unhex).unwrap_or_default();
        let key = w.next().and_then(unhex).and_then(|k| k.try_into().ok());
        if writeln!(out, "{}", answer(&b, key)).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

fn ask(name: &'static str, line: &str) -> Result<String, Fail> {
    let bin = if name == "bare" { "mbusbare" } else { "mbusmon" };
    child::ask(name, line, || {
        let mut c = Command::new(format!("/verif/target/{name}/debug/{bin}"));
        c.arg("serve");
        c
    })
}

pub struct C25;

fn same_doc(name: &str, got: &Value, want: &Value, case: &Case) -> Verdict {
    same(&format!("{name} build "), want, got, case)
}

impl Monitor for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "distinct (build, outcome, key use, header kind) and plaintext positions compared"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "builds compared: default with decryption, without decryption, with plaintext-before-extension, and the core without features",
            "renderings are compared by a 64-bit hash",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(24_000, 300_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        match idx % 6 {
            0 => {
                // plaintext units among ordinary records
                let mut a = vec![];
                for _ in 0..rng.range(1, 6) {
                    if rng.chance(1, 3) {
                        let n = rng.usize(6);
                        let ext = rng.chance(2, 3);
                        a.extend([*rng.pick(&[0x01u8, 0x02, 0x04, 0x0C, 0x0D]), if ext { 0xFC } else { 0x7C }]);
                        let t = gen::text_bytes(rng, n);
                        if ext && rng.chance(1, 2) {
                            a.push(*rng.pick(&[0x74u8, 0x3A, 0x7D]));
                            a.push(t.len() as u8);
                        } else {
                            a.push(t.len() as u8);
                        }
                        a.extend(t);
                        let n = rng.usize(6);
                        a.extend(rng.bytes(n));
                    } else {
                        a.extend(gen::gen_record(rng, rng.clone().chance(1, 2)));
                    }
                }
                Case::bytes("plaintext", wrap_records(rng, &a))
            }
            1 => text::rich_telegram(rng.u64(), rng),
            _ => telegram(rng.u64(), rng),
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let h = hex(b);
        let bad = |s: String, m: String| Err(Fail::new(s, format!("{h}: {m}")));
        let line = format!("{h} {}", case.key.map_or("-".into(), |k| hex(&k)));
        let main = answer(b, case.key);
        let read = |n: &'static str, l: &str| -> Result<Value, Fail> {
            serde_json::from_str(&ask(n, l)?).map_err(|e| Fail::new(format!("{n}-answer"), format!("{h}: {e}")))
        };
        // without decryption
        obs.evals(4);
        let n = read("nodec", &line)?;
        let open = answer(b, None);
        let want = model::decode(b, case.key.as_ref(), Config { plain_before: PLAIN, decryption: false });
        match &want {
            Ok(w) => same_doc("nodec", &model::normalise(n["doc"].clone()), &w.doc, case)?,
            Err(e) => {
                if n["doc"] != *e {
                    return bad("nodec-outcome".into(), format!("expected {e}, got {}", n["doc"]));
                }
            }
        }
        let encrypted = open["doc"]["security"]["payload_protection"] == "encrypted";
        if case.key.is_none() || !encrypted {
            if n["doc"] != main["doc"] {
                return bad("nodec-document".into(), "document differs although nothing is decrypted".into());
            }
            for (k, v) in main["texts"].as_object().into_iter().flatten() {
                if n["texts"][k] != *v {
                    return bad(format!("nodec-{k}"), format!("{k} differs although nothing is decrypted"));
                }
            }
        } else if main["doc"].is_object() && n["doc"] != "security.feature_unavailable" {
            return bad("nodec-key".into(), format!("a needed key gives {}", n["doc"]));
        }
        if n["probe"] != main["probe"] {
            return bad("nodec-typed".into(), "typed API differs".into());
        }
        let d = &open["doc"];
        obs.feature(&format!(
            "shape {} {} {} {}",
            d["frame"]["kind"],
            d["transport"]["header_kind"],
            d["records"].as_array().map_or(0, Vec::len),
            d["security"]["mode_code"]
        ));
        obs.feature(&format!("nodec {} {encrypted} {}", n["doc"].is_object(), case.key.is_some()));
        // without anything
        let bare = ask("bare", &line)?;
        if bare != format!("{:?}", main["probe"].as_str().unwrap_or("")) {
            return bad("bare-typed".into(), "the core without features differs".into());
        }
        obs.feature(&format!("bare {}", fnv(bare.split(' ').take(2).collect::<String>().as_bytes())));
        // plaintext before extension
        let p = read("plain", &line)?;
        let want = model::decode(b, case.key.as_ref(), Config { plain_before: true, decryption: true });
        match &want {
            Ok(w) => same_doc("plain", &model::normalise(p["doc"].clone()), &w.doc, case)?,
            Err(e) => {
                if p["doc"] != *e {
                    return bad("plain-outcome".into(), format!("expected {e}, got {}", p["doc"]));
                }
            }
        }
        let standard = model::decode(b, case.key.as_ref(), Config { plain_before: false, decryption: true });
        let first = standard
            .as_ref()
            .ok()
            .and_then(|d| d.area.as_ref())
            .and_then(|(_, r)| r.records.iter().position(|r| r.vif.is_some_and(|v| v & 0x7F == 0x7C)));
        let stopped = standard.as_ref().ok().and_then(|d| d.area.as_ref()).is_some_and(|(_, r)| r.error.is_some());
        match first {
            None if !stopped => {
                if p["doc"] != main["doc"] {
                    return bad("plain-document".into(), "document differs without a plaintext unit".into());
                }
                // ciphertext and unused interpretations may look like records
                let clear = main["doc"]["security"]["payload_protection"] == "cleartext";
                for (k, v) in main["texts"].as_object().into_iter().flatten() {
                    if clear && p["texts"][k] != *v && !has_plain(b) {
                        return bad(format!("plain-{k}"), format!("{k} differs without a plaintext unit"));
                    }
                }
                obs.feature("plain same");
            }
            k => {
                // records before the first plaintext unit are untouched
                let n = k.or(standard.as_ref().ok().and_then(|d| d.area.as_ref()).map(|(_, r)| r.records.len())).unwrap_or(0);
                for i in 0..n {
                    if p["doc"]["records"][i] != main["doc"]["records"][i] {
                        return bad("plain-earlier".into(), format!("record {i} before any plaintext unit differs"));
                    }
                }
                obs.feature(&format!("plain unit at {n} {}", k.is_some()));
            }
        }
        obs.sample(|| h.clone());
        Ok(())
    }
}

/// A byte that could be a plaintext VIF anywhere.
fn has_plain(b: &[u8]) -> bool {
    b.iter().any(|x| x & 0x7F == 0x7C)
}
