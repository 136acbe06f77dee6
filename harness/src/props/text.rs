//! C15-C19, C23: text input and canonical text renderings.

use super::common::*;
use crate::engine::*;
use crate::gen;
use crate::model;
use m_bus_parser::mbus_data::serialize_mbus_data;
use m_bus_parser::output;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use unicode_width::UnicodeWidthStr;

// ---------------------------------------------------------------- C15

pub struct C15;

/// Accepted spellings: compact digits, or two-digit tokens with separators.
pub fn ref_hex(input: &str) -> Result<Vec<u8>, (&'static str, Option<usize>)> {
    let chars: Vec<(usize, char)> = input.char_indices().collect();
    let Some(first) = chars.iter().position(|c| !c.1.is_whitespace()) else {
        return Err(("input.empty", None));
    };
    let last = chars.iter().rposition(|c| !c.1.is_whitespace()).unwrap();
    let body = &chars[first..=last];
    let digit = |c: char| c.is_ascii() && c.is_ascii_hexdigit();
    if body.iter().all(|c| digit(c.1)) {
        if body.len() % 2 == 1 {
            return Err(("input.invalid_hex", Some(body[body.len() - 1].0)));
        }
        return Ok(body.chunks(2).map(|p| (p[0].1.to_digit(16).unwrap() * 16 + p[1].1.to_digit(16).unwrap()) as u8).collect());
    }
    let sep = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}' | ':' | '-');
    let mut out = vec![];
    let mut i = 0;
    while i < body.len() {
        if sep(body[i].1) {
            i += 1;
            continue;
        }
        let start = i;
        while i < body.len() && !sep(body[i].1) {
            i += 1;
        }
        let mut t: Vec<char> = body[start..i].iter().map(|c| c.1).collect();
        if t.len() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X') {
            t.drain(..2);
        }
        if t.len() != 2 || !t.iter().all(|c| digit(*c)) {
            return Err(("input.invalid_hex", Some(body[start].0)));
        }
        out.push((t[0].to_digit(16).unwrap() * 16 + t[1].to_digit(16).unwrap()) as u8);
    }
    if out.is_empty() {
        return Err(("input.empty", None));
    }
    Ok(out)
}

/// One of the accepted spellings of `b`.
pub fn spell(rng: &mut Rng, b: &[u8]) -> String {
    let byte = |rng: &mut Rng, x: u8| -> String {
        match rng.below(3) {
            0 => format!("{x:02x}"),
            1 => format!("{x:02X}"),
            _ => {
                let s = format!("{x:02x}");
                format!("{}{}", s[..1].to_uppercase(), &s[1..])
            }
        }
    };
    let pad = |rng: &mut Rng| -> String {
        let k = rng.usize(3);
        (0..k).map(|_| *rng.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{b}', '\u{85}'])).collect()
    };
    let mut s = pad(rng);
    match rng.below(3) {
        0 => {
            for x in b {
                s.push_str(&byte(rng, *x));
            }
        }
        _ => {
            let mixed = rng.chance(1, 2);
            let sep0 = *rng.pick(&[" ", ":", "-", "\n", ", "]);
            let sep0 = if sep0 == ", " { "  " } else { sep0 };
            if rng.chance(1, 10) && b.len() > 1 {
                s.push(*rng.pick(&[':', '-']));
            }
            for (i, x) in b.iter().enumerate() {
                if i > 0 {
                    if mixed {
                        let k = 1 + rng.usize(3);
                        for _ in 0..k {
                            s.push(*rng.pick(&[' ', ':', '-', '\t', '\n', '\r', '\u{c}']));
                        }
                    } else {
                        s.push_str(sep0);
                    }
                }
                if rng.chance(1, 4) || mixed && b.len() == 1 {
                    s.push_str(*rng.pick(&["0x", "0X"]));
                }
                s.push_str(&byte(rng, *x));
            }
        }
    }
    s.push_str(&pad(rng));
    s
}

fn spoil(rng: &mut Rng, s: &mut String) {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.usize(2) {
        let i = rng.usize(c.len() + 1);
        match rng.below(7) {
            0 | 1 => c.insert(i, *rng.pick(&['g', 'x', 'G', '_', '.', ',', '0', 'é', '\u{ff11}', '\u{0}', '%', 'h', '+', 'O', '\u{feff}', '\u{200b}', '\u{a0}', '\u{b}', '"'])),
            2 if i < c.len() => {
                c.remove(i);
            }
            3 if i < c.len() => c[i] = *rng.pick(&['z', ' ', '-', ':', 'X', '٣', 'f', '\u{1F600}']),
            4 => {
                let t: Vec<char> = rng.pick(&["0x", "0x1", "x", "0X0x12", "0x123", "0x ", "1", "12 3", "+1", "-1", "+f"]).chars().collect();
                c.splice(i..i, t);
            }
            5 => c.truncate(i),
            _ => c.insert(i, *rng.pick(&[' ', ':', '-', '\n'])),
        }
    }
    *s = c.into_iter().collect();
}

impl Monitor for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "distinct (outcome, error offset, number of bytes, set of character classes in the text) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(140_000, 900_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let b = match idx % 6 {
            0 => {
                let k = rng.usize(6);
                rng.bytes(k)
            }
            1 => gen::gen_records(rng, 60, PLAIN),
            _ => telegram(rng.u64(), rng).bytes,
        };
        let mut s = spell(rng, &b);
        let kind = if idx % 3 == 0 {
            "spelled"
        } else {
            spoil(rng, &mut s);
            "spoiled"
        };
        if idx % 50 == 7 {
            s = super::c01::junk_text(rng);
        }
        let mut c = Case::bytes(if idx % 50 == 7 { "junk" } else { kind }, b);
        c.text = s;
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let want = ref_hex(&case.text);
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{:?}: {m}", case.text)));
        let check = |what: &'static str, r: Result<(), output::OutputError>| -> Verdict {
            // outcome of a text entry point against the reference
            match (&want, r) {
                (Err((code, off)), Err(e)) => {
                    if e.code() != *code {
                        return err(&format!("{what}:code"), format!("expected {code}, got {} ({e})", e.code()));
                    }
                    if e.byte_offset() != *off {
                        return err(&format!("{what}:offset"), format!("expected offset {off:?}, got {:?}", e.byte_offset()));
                    }
                    if e.layer() != "input" {
                        return err(&format!("{what}:layer"), e.layer().to_string());
                    }
                    Ok(())
                }
                (Err(w), Ok(())) => err(&format!("{what}:accepted"), format!("expected {w:?}")),
                (Ok(_), Err(e)) if e.layer() == "input" => err(&format!("{what}:refused"), format!("{e}")),
                _ => Ok(()),
            }
        };
        let t = &case.text;
        let got = guard("decode_hex_bytes", || output::decode_hex_bytes(t))?;
        obs.eval();
        if case.kind == "spelled" && !case.bytes.is_empty() && want.as_ref().ok() != Some(&case.bytes) {
            return Err(Fail::new("harness-spelling", format!("{t:?} is not a spelling of {}", hex(&case.bytes))));
        }
        if let (Ok(g), Ok(w)) = (&got, &want) {
            if g != w {
                return err("bytes", format!("expected {}, got {}", hex(w), hex(g)));
            }
        }
        check("bytes", got.map(|_| ()))?;
        // the other text entry points
        let o = opts(None);
        let d = guard("decode_hex", || output::decode_hex(t, &o))?;
        obs.eval();
        if let Ok(b) = &want {
            let direct = guard("decode_bytes", || output::decode_bytes(b, &o))?;
            match (&d, &direct) {
                (Ok(x), Ok(y)) => {
                    let mut xv = serde_json::to_value(x).unwrap_or_default();
                    let yv = serde_json::to_value(y).unwrap_or_default();
                    if xv["raw"]["input"] != json!(t) {
                        return err("input-echo", format!("raw.input is {}", xv["raw"]["input"]));
                    }
                    xv["raw"].as_object_mut().map(|m| m.remove("input"));
                    if xv != yv {
                        return err("document", "the text decodes differently than its bytes".into());
                    }
                }
                (Err(x), Err(y)) if x == y => {}
                (x, y) => return err("document", format!("text {:?}, bytes {:?}", x.as_ref().err(), y.as_ref().err())),
            }
            for f in FORMATS {
                let ro = ropts(None, Some(90), true);
                let x = guard("render_hex", || output::render_hex(t, f, &ro))?;
                let y = guard("render_bytes", || output::render_bytes(b, f, &ro))?;
                obs.eval();
                if x != y {
                    return err(&format!("render:{}", f.as_str()), "text renders differently than its bytes".into());
                }
            }
            let x = guard("decode_data_records_hex", || output::decode_data_records_hex(t))?.map(|r| serde_json::to_value(r).unwrap_or_default());
            let y = guard("decode_data_records", || output::decode_data_records(b))?.map(|r| serde_json::to_value(r).unwrap_or_default());
            obs.eval();
            if x != y {
                return err("records", "record text decodes differently than its bytes".into());
            }
        } else {
            check("decode_hex", d.map(|_| ()))?;
            let r = guard("decode_data_records_hex", || output::decode_data_records_hex(t))?;
            check("decode_data_records_hex", r.map(|_| ()))?;
            for f in FORMATS {
                let ro = ropts(None, Some(90), true);
                let r = guard("render_hex", || output::render_hex(t, f, &ro))?;
                obs.eval();
                check("render_hex", r.map(|_| ()))?;
            }
        }
        let classes: BTreeSet<u8> = t
            .chars()
            .map(|c| match c {
                '0'..='9' => 0,
                'a'..='f' => 1,
                'A'..='F' => 2,
                'x' | 'X' => 3,
                ':' => 4,
                '-' => 5,
                c if c.is_ascii_whitespace() => 6,
                c if c.is_whitespace() => 7,
                c if c.is_ascii() => 8,
                _ => 9,
            })
            .collect();
        obs.feature(&format!("{:?} {classes:?}", want.as_ref().map(Vec::len)));
        obs.count(if want.is_ok() { "accepted" } else { "refused" });
        obs.sample(|| format!("{:?} -> {:?}", t.chars().take(60).collect::<String>(), want.as_ref().map(|b| b.len())));
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

pub struct C16;

/// JSON value reader that refuses duplicate keys.
struct Strict(Value);
impl<'de> serde::Deserialize<'de> for Strict {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Strict;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a JSON value")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Strict, E> {
                Ok(Strict(json!(v)))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Strict, E> {
                Ok(Strict(json!(v)))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Strict, E> {
                Ok(Strict(json!(v)))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Strict, E> {
                Ok(Strict(json!(v)))
            }
            fn visit_str<E>(self, v: &str) -> Result<Strict, E> {
                Ok(Strict(json!(v)))
            }
            fn visit_unit<E>(self) -> Result<Strict, E> {
                Ok(Strict(Value::Null))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Strict, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element::<Strict>()? {
                    v.push(x.0);
                }
                Ok(Strict(Value::Array(v)))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Strict, A::Error> {
                let mut m = serde_json::Map::new();
                while let Some((k, x)) = a.next_entry::<String, Strict>()? {
                    if m.insert(k.clone(), x.0).is_some() {
                        return Err(serde::de::Error::custom(format!("duplicate key {k}")));
                    }
                }
                Ok(Strict(Value::Object(m)))
            }
        }
        d.deserialize_any(V)
    }
}

const SECTIONS: &[&str] = &["schema_version", "decode_state", "protocol", "frame", "meter", "transport", "security", "records", "raw", "diagnostics"];

/// Structural contract of the document, independent of its content.
fn contract(d: &Value, case: &Case, enriched: bool) -> Verdict {
    let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {m}", hex(&case.bytes))));
    let Some(o) = d.as_object() else { return err("document", "not an object".into()) };
    for k in SECTIONS {
        if !o.contains_key(*k) {
            return err("section-missing", k.to_string());
        }
    }
    for k in o.keys() {
        if !SECTIONS.contains(&k.as_str()) && !(k == "enrichment" && enriched) {
            return err("section-extra", k.clone());
        }
    }
    if d["schema_version"] != 3 {
        return err("schema-version", d["schema_version"].to_string());
    }
    for (k, ok) in [
        ("frame", d["frame"].is_object()),
        ("meter", d["meter"].is_object()),
        ("transport", d["transport"].is_object()),
        ("security", d["security"].is_object()),
        ("raw", d["raw"].is_object()),
        ("records", d["records"].is_array()),
        ("diagnostics", d["diagnostics"].is_array()),
    ] {
        if !ok {
            return err("section-type", k.into());
        }
    }
    if !["complete", "partial"].contains(&d["decode_state"].as_str().unwrap_or("")) {
        return err("decode-state", d["decode_state"].to_string());
    }
    let has_trouble = d["diagnostics"].as_array().is_some_and(|a| a.iter().any(|x| x["severity"] != "info"));
    if has_trouble != (d["decode_state"] == "partial") {
        return err("decode-state", format!("{} with diagnostics {}", d["decode_state"], d["diagnostics"]));
    }
    walk(d, "", case)?;
    for (i, r) in d["records"].as_array().unwrap().iter().enumerate() {
        let keys: Vec<&str> = r.as_object().map(|m| m.keys().map(String::as_str).collect()).unwrap_or_default();
        for k in ["index", "function", "storage_number", "tariff", "subunit", "quantities", "value", "data_coding", "header_hex", "data_hex"] {
            if !keys.contains(&k) {
                return err("record-field", format!("record {i} lacks {k}"));
            }
        }
        if r["index"] != i {
            return err("record-index", format!("record {i} has index {}", r["index"]));
        }
        let v = r["value"].as_object();
        let Some(v) = v else { return err("record-value", r["value"].to_string()) };
        if !v.get("kind").is_some_and(Value::is_string) || v.keys().any(|k| k != "kind" && k != "value") {
            return err("record-value", r["value"].to_string());
        }
        let ok = match (v["kind"].as_str().unwrap(), v.get("value")) {
            ("integer" | "decimal" | "number", Some(Value::String(s))) => {
                !s.is_empty() && s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-')
            }
            (_, None | Some(Value::String(_))) => true,
            (_, Some(Value::Number(n))) => n.as_f64().is_some_and(f64::is_finite),
            (_, Some(Value::Object(_))) => true,
            _ => false,
        };
        if !ok {
            return err("record-value", r["value"].to_string());
        }
    }
    Ok(())
}

fn walk(v: &Value, path: &str, case: &Case) -> Verdict {
    let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {path}: {m}", hex(&case.bytes))));
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let snake = !k.is_empty() && k.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_');
                if !snake {
                    return err("key-case", k.clone());
                }
                if x.is_null() {
                    return err("null", format!("{k} is null"));
                }
                if k.ends_with("_hex") {
                    let s = x.as_str().unwrap_or("?");
                    if !s.chars().all(|c| c.is_ascii_digit() || ('A'..='F').contains(&c) || c == ' ') {
                        return err("hex-case", format!("{k} = {s}"));
                    }
                    if s.chars().filter(|c| *c != ' ').count() % 2 == 1 {
                        return err("hex-case", format!("{k} = {s}"));
                    }
                }
                if matches!(k.as_str(), "alternate_identities" | "access_numbers" | "statuses") && x.as_array().is_none_or(Vec::is_empty) {
                    return err("empty-optional", k.clone());
                }
                walk(x, &format!("{path}/{k}"), case)?;
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                walk(x, &format!("{path}/{i}"), case)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// Fields, besides those named `_hex`, which hold hexadecimal digits.
const HEX_FIELDS: &[&str] = &["control_field", "raw", "communication_control", "receiver_manufacturer", "receiver_address", "session_number", "payload_crc"];

/// Key structure of a document without its content, with `widths` also the width and case of hexadecimal fields.
fn shape(v: &Value, widths: bool) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .map(|(k, x)| {
                    let x = match x.as_str() {
                        Some(s) if widths && (HEX_FIELDS.contains(&k.as_str()) || k.ends_with("_hex")) => {
                            let upper = s.chars().all(|c| c == ' ' || c.is_ascii_digit() || ('A'..='F').contains(&c));
                            json!(format!("{} {} characters", if upper { "hex" } else { "other" }, s.len()))
                        }
                        _ => shape(x, widths),
                    };
                    (k.clone(), x)
                })
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(|x| shape(x, widths)).collect()),
        Value::String(_) => json!("string"),
        Value::Number(_) => json!("number"),
        Value::Bool(_) => json!("bool"),
        Value::Null => Value::Null,
    }
}

impl Monitor for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "distinct document shapes (complete key structure with value types) of compared telegrams"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(25_000, 350_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        rich_telegram(idx, rng)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {m}", hex(&case.bytes))));
        let mut docs = vec![];
        for enrich in [false, true] {
            let mut o = opts(case.key);
            o.include_enrichment = enrich;
            let d = guard("decode_bytes", || output::decode_bytes(&case.bytes, &o))?;
            obs.eval();
            let Ok(d) = d else {
                for f in [Fmt::Json, Fmt::Yaml] {
                    if render(&case.bytes, case.key, f, None, enrich)?.is_ok() {
                        return err("rendered-error", format!("{} renders an undecodable telegram", f.as_str()));
                    }
                }
                return Ok(());
            };
            let typed = serde_json::to_value(&d).map_err(|e| Fail::new("serialize", e.to_string()))?;
            let Ok(js) = render(&case.bytes, case.key, Fmt::Json, None, enrich)? else { return err("json:refused", String::new()) };
            let Ok(ys) = render(&case.bytes, case.key, Fmt::Yaml, None, enrich)? else { return err("yaml:refused", String::new()) };
            let j = match serde_json::from_str::<Strict>(&js) {
                Ok(Strict(j)) => j,
                Err(e) => return err("json:parse", e.to_string()),
            };
            let y = match serde_yaml::from_str::<Value>(&ys) {
                Ok(y) => y,
                Err(e) => return err("yaml:parse", e.to_string()),
            };
            obs.evals(2);
            for (n, v) in [("json", &j), ("yaml", &y)] {
                if let Some((p, m)) = model::diff(&typed, v) {
                    return err(&format!("{n}:differs"), format!("{p}: {m}"));
                }
            }
            contract(&j, case, enrich)?;
            // an independent view of where optional parts belong
            if let Ok(w) = model_doc(&case.bytes, case.key) {
                let a = shape(&w.doc, true);
                let doc = model::normalise(j.clone());
                let b = shape(&doc, true);
                if let Some((p, m)) = model::diff(&a, &b) {
                    return err(&format!("shape{}", model::path_class(&p)), format!("{p}: {m}"));
                }
                obs.feature_hash(fnv(shape(&doc, false).to_string().as_bytes()));
            }
            docs.push(j);
        }
        // options left at their defaults: no key, enriched
        if case.key.is_none() {
            let ro = m_bus_parser::RenderOptions::default();
            let d = guard("decode_bytes", || output::decode_bytes(&case.bytes, &m_bus_parser::DecodeOptions::default()))?;
            let r = guard("json", || output::render_bytes(&case.bytes, Fmt::Json, &ro))?;
            obs.evals(2);
            let d = d.ok().and_then(|d| serde_json::to_value(&d).ok());
            let r = r.ok().and_then(|r| serde_json::from_str::<Value>(&r).ok());
            if d.as_ref() != docs.last() || r.as_ref() != docs.last() {
                return err("defaults", "the default options do not give the enriched document".into());
            }
            obs.count("default options");
        }
        let mut on = docs.pop().unwrap();
        let off = docs.pop().unwrap();
        let e = on.as_object_mut().unwrap().remove("enrichment");
        if on != off {
            return err("enrichment:changes", model::diff(&off, &on).map_or(String::new(), |d| format!("{}: {}", d.0, d.1)));
        }
        let code = off["meter"]["identity"]["manufacturer_code"].as_str().unwrap_or("");
        let known = m_bus_parser::manufacturers::lookup_manufacturer(code);
        match (known, &e) {
            (Some(_), Some(e)) => {
                if e["manufacturer_code"] != code {
                    return err("enrichment:code", e.to_string());
                }
                obs.count("enriched");
            }
            (None, None) => {}
            (k, _) => return err("enrichment:presence", format!("code {code:?} registered {}: {e:?}", k.is_some())),
        }
        obs.sample(|| format!("{} -> {} records, {}", hex(&case.bytes), off["records"].as_array().map_or(0, Vec::len), off["decode_state"]));
        Ok(())
    }
}

/// Telegrams with many kinds of records and hostile text.
pub fn rich_telegram(idx: u64, rng: &mut Rng) -> Case {
    match idx % 5 {
        0 | 1 => telegram(rng.u64(), rng),
        2 => {
            let mut area = vec![];
            for _ in 0..1 + rng.usize(4) {
                area.extend(hostile_text_record(rng));
            }
            if rng.chance(1, 4) {
                area.extend([0x0F, 1, 2, 3]);
            }
            area.truncate(220);
            Case::bytes("text", wrap_records(rng, &area))
        }
        3 => {
            // many small records
            let full = rng.chance(1, 4);
            let n = if full { 116 } else { 1 + rng.usize(110) };
            let mut area = vec![];
            for _ in 0..n {
                if area.len() > 230 {
                    break;
                }
                area.extend([*rng.pick(&[0x00u8, 0x08, if full { 0x00 } else { 0x01 }]), *rng.pick(&[0x13u8, 0x05, 0x5A, 0x78])]);
                if area[area.len() - 2] == 1 {
                    area.push(rng.u8());
                }
            }
            Case::bytes("many", wrap_records(rng, &area))
        }
        _ => {
            let area = gen::gen_records(rng, 220, PLAIN);
            let mut c = Case::bytes("records", wrap_records(rng, &area));
            if rng.chance(1, 8) {
                c.key = Some(rng.arr());
            }
            c
        }
    }
}

/// Text that means something to CSV, YAML, JSON, mermaid, XML or a terminal.
pub fn hostile_text_record(rng: &mut Rng) -> Vec<u8> {
    const T: &[&str] = &[
        "a,b",
        "\"quoted\"",
        "line\nbreak",
        "cr\rlf\r\n",
        "\"]\n    EVIL[\"x\"]",
        "\"] --> X",
        "end\nclassDef a fill:red",
        "%%{init: {}}%%",
        "click R0 href \"javascript:1\"",
        "<script>alert(1)</script>",
        "&amp;&lt;&#34;",
        "]]>",
        "<!-- x -->",
        "yes",
        "no",
        "null",
        "~",
        "1e3",
        "0x1F",
        ".inf",
        "- a",
        "a: b",
        "#comment",
        "'single'",
        "=1+1",
        "@x",
        "|pipe|",
        "{brace}",
        "tab\there",
        "\u{1b}[31mred",
        "nul\0byte",
        "é ü ß",
        "日本語",
        "emoji \u{1F600}",
        "\u{202e}rtl",
        "zero\u{200b}width",
        "e\u{301}combining",
        "\u{ffff}",
        "\u{85}nel",
        "\u{2028}ls",
        "a very long text which does not fit into one column of the table at all",
        " leading",
        "trailing ",
        "",
        "#quot;x#34;",
        "`md`",
        "a;b",
        "---",
        "&quot;",
        "\u{feff}bom",
    ];
    let t = if rng.chance(1, 5) {
        let k = rng.usize(30);
        gen::text_bytes(rng, k)
    } else if rng.chance(1, 10) {
        // sequences whose width is not the sum of their characters' widths
        let unit = *rng.pick(&["\u{2764}\u{fe0f}", "1\u{fe0f}\u{20e3}", "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}", "\u{1f1e8}\u{1f1ed}", "\u{1100}\u{1161}\u{11a8}", "\u{644}\u{627}", "\u{1f44d}\u{1f3fd}", "\u{ff21}", "a\u{300}\u{301}"]);
        let n = 1 + rng.usize(30);
        format!("{}{}", &"abcdefgh"[..rng.usize(9)], unit.repeat(n)).chars().scan(0, |k, c| {
            *k += c.len_utf8();
            (*k <= 100).then_some(c)
        }).collect::<String>().into_bytes()
    } else if rng.chance(1, 3) {
        format!("{}{}", rng.pick(T), rng.pick(T)).into_bytes()
    } else {
        rng.pick(T).as_bytes().to_vec()
    };
    let mut t = t;
    t.truncate(100);
    // transmitted in reverse order
    t.reverse();
    let mut r = vec![0x0D];
    r.extend(match rng.below(4) {
        0 => vec![0x78],
        1 => vec![0xFD, *rng.pick(&[0x0Au8, 0x0B, 0x0C, 0x0D, 0x11, 0x10])],
        2 => vec![0x79],
        _ => vec![0x13],
    });
    r.push(t.len() as u8);
    r.extend(t);
    r
}

// ---------------------------------------------------------------- C17

pub struct C17;

/// Readable form of a record value, from the canonical document.
pub fn value_text(r: &Value) -> String {
    let v = &r["value"];
    match v.get("value") {
        Some(Value::String(s)) => s.clone(),
        Some(Value::Object(m)) => m
            .iter()
            .map(|(k, x)| format!("{k}={}", x.as_str().map_or_else(|| x.to_string(), str::to_string)))
            .collect::<Vec<_>>()
            .join(", "),
        Some(x) => x.to_string(),
        None => match v["kind"].as_str().unwrap_or("") {
            "manufacturer_specific" => r["data_hex"].as_str().unwrap_or("").replace(' ', ""),
            "none" => "No data".into(),
            "unknown" => "Unsupported value type".into(),
            _ => String::new(),
        },
    }
}

pub fn csv_expected(d: &Value) -> Vec<(String, String)> {
    let s = |v: &Value| match v {
        Value::String(s) => s.clone(),
        Value::Null => String::new(),
        x => x.to_string(),
    };
    let join = |v: &Value, f: &dyn Fn(&Value) -> String| v.as_array().map(|a| a.iter().map(f).collect::<Vec<_>>().join("|")).unwrap_or_default();
    let id = &d["meter"]["identity"];
    let mut o = vec![
        ("schema_version", s(&d["schema_version"])),
        ("protocol", s(&d["protocol"])),
        ("frame_kind", s(&d["frame"]["kind"])),
        ("frame_function", s(&d["frame"]["function"])),
        ("address", s(&d["frame"]["address"])),
        ("meter_id", s(&id["id"])),
        ("manufacturer_code", s(&id["manufacturer_code"])),
        ("identity_source", s(&id["source"])),
        ("access_numbers", join(&d["transport"]["access_numbers"], &|x| format!("{}:{}", s(&x["source"]), s(&x["value"])))),
        ("status_codes", join(&d["transport"]["statuses"], &|x| s(&x["raw"]))),
        ("security_mode", s(&d["security"]["mode"])),
        ("decryption_state", s(&d["security"]["decryption_state"])),
        ("decode_state", s(&d["decode_state"])),
        ("record_count", d["records"].as_array().map_or(0, Vec::len).to_string()),
        ("diagnostic_codes", join(&d["diagnostics"], &|x| s(&x["code"]))),
        ("manufacturer_name", s(&d["enrichment"]["manufacturer_name"])),
        ("manufacturer_website", s(&d["enrichment"]["manufacturer_website"])),
        ("frame_hex", s(&d["raw"]["original_frame_hex"])),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect::<Vec<_>>();
    for (i, r) in d["records"].as_array().unwrap().iter().enumerate() {
        for (k, v) in [
            ("function", s(&r["function"])),
            ("storage_number", s(&r["storage_number"])),
            ("tariff", s(&r["tariff"])),
            ("subunit", s(&r["subunit"])),
            ("quantities", join(&r["quantities"], &s)),
            ("value_type", s(&r["value"]["kind"])),
            ("value", value_text(r)),
            ("unit", s(&r["unit"])),
            ("data_coding", s(&r["data_coding"])),
            ("header_hex", s(&r["header_hex"])),
            ("data_hex", s(&r["data_hex"])),
        ] {
            o.push((format!("record_{i}_{k}"), v));
        }
    }
    o
}

pub fn enriched_doc(b: &[u8], key: Option<[u8; 16]>, enrich: bool) -> Result<Result<Value, String>, Fail> {
    let mut o = opts(key);
    o.include_enrichment = enrich;
    let r = guard("decode_bytes", || output::decode_bytes(b, &o))?;
    Ok(match r {
        Ok(d) => Ok(serde_json::to_value(&d).map_err(|e| Fail::new("serialize", e.to_string()))?),
        Err(e) => Err(e.code().to_string()),
    })
}

impl Monitor for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "distinct (record count, cell content class, quoted or not) tuples and distinct data rows"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(80_000, 400_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = rich_telegram(idx, rng);
        c.nums = vec![rng.below(2) as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let enrich = case.nums[0] == 1;
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {m}", hex(&case.bytes))));
        let d = enriched_doc(&case.bytes, case.key, enrich)?;
        let r = render(&case.bytes, case.key, Fmt::Csv, None, enrich)?;
        obs.eval();
        let (d, s) = match (d, r) {
            (Ok(d), Ok(s)) => (d, s),
            (Err(a), Err(b)) if a == b => return Ok(()),
            (a, b) => return err("outcome", format!("decode {:?}, CSV {:?}", a.err(), b.err())),
        };
        let rows = match read_csv(&s) {
            Ok(r) => r,
            Err(e) => return err("syntax", format!("{e}: {s:?}")),
        };
        if rows.len() != 2 {
            return err("rows", format!("{} rows", rows.len()));
        }
        if !s.ends_with('\n') {
            return err("syntax", "last row is not terminated".into());
        }
        if rows[0].len() != rows[1].len() {
            return err("width", format!("{} against {}", rows[0].len(), rows[1].len()));
        }
        let want = csv_expected(&d);
        if rows[0].len() != want.len() {
            return err("columns", format!("expected {} columns, got {}", want.len(), rows[0].len()));
        }
        for (i, (k, v)) in want.iter().enumerate() {
            if rows[0][i] != *k {
                return err("header", format!("column {i}: expected {k}, got {}", rows[0][i]));
            }
            if rows[1][i] != *v {
                let class: String = k.chars().filter(|c| !c.is_ascii_digit()).collect();
                return err(&format!("cell:{class}"), format!("{k}: expected {v:?}, got {:?}", rows[1][i]));
            }
        }
        obs.feature_hash(fnv(rows[1].join("\u{1f}").as_bytes()));
        obs.count(if s.contains("\"\"") { "rows with quotes" } else { "rows" });
        obs.sample(|| format!("{} columns: {}", want.len(), s.lines().last().unwrap_or("").chars().take(120).collect::<String>()));
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

pub struct C18;

pub fn reading_text(r: &Value) -> String {
    let q: Vec<&str> = r["quantities"].as_array().map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
    let q = if q.is_empty() { "Reading".to_string() } else { q.join(", ") };
    let unit = r["unit"].as_str().map(|u| format!(" {u}")).unwrap_or_default();
    format!("{q}: {}{unit}", value_text(r))
}

/// Text as it may legitimately appear across wrapped lines: no white space, controls replaced.
fn squeeze(s: &str) -> String {
    s.chars()
        .filter(|c| *c != '\n')
        .map(|c| if c.is_control() { '·' } else { c })
        .filter(|c| *c != ' ')
        .collect()
}

struct Table {
    headers: Vec<String>,
    rows: Vec<Vec<String>>,
}

/// Splits the rendering into boxes; each logical row's cells are the concatenated wrapped lines.
fn read_tables(s: &str, width: usize) -> Result<(Vec<String>, Vec<Table>), (String, String)> {
    let e = |sig: &str, m: String| (sig.to_string(), m);
    let mut free = vec![];
    let mut tables = vec![];
    let lines: Vec<&str> = s.split('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with('┌') {
            if l.starts_with(['│', '├', '└']) {
                return Err(e("structure", format!("stray line {l:?}")));
            }
            if UnicodeWidthStr::width(l) > width {
                return Err(e("width", format!("{l:?} is {} columns", UnicodeWidthStr::width(l))));
            }
            free.push(l.to_string());
            i += 1;
            continue;
        }
        // column boundaries from the top border, in display columns
        let total = UnicodeWidthStr::width(l);
        if total > width {
            return Err(e("width", format!("border is {total} columns, {width} requested")));
        }
        if !l.ends_with('┐') {
            return Err(e("structure", format!("{l:?}")));
        }
        let edges = |l: &str| -> Vec<usize> { l.chars().enumerate().filter(|c| c.1 != '─').map(|c| c.0).collect() };
        let top = edges(l);
        let n = top.len() - 1;
        let mut rows: Vec<Vec<String>> = vec![];
        let mut cur: Option<Vec<String>> = None;
        i += 1;
        loop {
            let Some(l) = lines.get(i) else { return Err(e("structure", "unclosed box".into())) };
            i += 1;
            if l.starts_with('├') || l.starts_with('└') {
                if edges(l) != top || l.chars().count() != total {
                    return Err(e("alignment", format!("{l:?}")));
                }
                match cur.take() {
                    Some(r) => rows.push(r),
                    None => return Err(e("structure", "border without row".into())),
                }
                if l.starts_with('└') {
                    if !l.ends_with('┘') {
                        return Err(e("structure", l.to_string()));
                    }
                    break;
                }
                continue;
            }
            if !l.starts_with('│') || !l.ends_with('│') {
                return Err(e("structure", format!("{l:?} inside a box")));
            }
            let w = UnicodeWidthStr::width(*l);
            if w > width {
                return Err(e("width", format!("{l:?} is {w} columns, {width} requested")));
            }
            if w != total {
                return Err(e("alignment", format!("{l:?} is {w} columns, its box {total}")));
            }
            // cells: text may contain the box character, so cut by display width
            let mut cells = vec![];
            let mut it = l.char_indices().peekable();
            it.next();
            let mut start = '│'.len_utf8();
            for c in 0..n {
                let want = top[c + 1] - top[c] - 1;
                // shortest prefix of the right width followed by the column separator, exactly aligned
                let rest = &l[start..];
                let mut hit = None;
                for (k, ch) in rest.char_indices() {
                    if ch == '│' && UnicodeWidthStr::width(&rest[..k]) == want {
                        hit = Some(k);
                        break;
                    }
                }
                let Some(k) = hit else { return Err(e("alignment", format!("{l:?} column {c}"))) };
                let cell = &rest[..k];
                if !cell.starts_with(' ') || !cell.ends_with(' ') {
                    return Err(e("padding", format!("{l:?} column {c}")));
                }
                cells.push(cell.to_string());
                start += k + '│'.len_utf8();
            }
            if start != l.len() {
                return Err(e("alignment", format!("{l:?}")));
            }
            let r = cur.get_or_insert_with(|| vec![String::new(); n]);
            for (a, b) in r.iter_mut().zip(&cells) {
                a.push_str(&squeeze(b));
            }
        }
        if rows.is_empty() {
            return Err(e("structure", "empty box".into()));
        }
        let headers = rows.remove(0);
        tables.push(Table { headers, rows });
    }
    Ok((free, tables))
}

impl Monitor for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "distinct (width, layout, record count, content digest) tuples"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["display width is the Unicode width of a line as the unicode-width crate gives it"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(60_000, 400_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = rich_telegram(idx, rng);
        let w = match rng.below(6) {
            0 => *rng.pick(&[32, 33, 71, 72, 73, 99, 100, 101, 128]),
            1 => rng.below(33) as i64,
            2 => rng.range(32, 100),
            _ if rng.chance(1, 400) => *rng.pick(&[1_000, 65_534, 65_535, 65_536, 65_537, 70_000, 200_000]),
            _ => rng.range(32, 260),
        };
        c.nums = vec![if idx < 2_000 { 32 + (idx as i64 % 230) } else { w }, rng.below(2) as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let width = case.nums[0] as usize;
        let enrich = case.nums[1] == 1;
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{} width {width}: {m}", hex(&case.bytes))));
        let d = enriched_doc(&case.bytes, case.key, enrich)?;
        let r = render(&case.bytes, case.key, Fmt::Table, Some(width), enrich)?;
        obs.eval();
        let (d, s) = match (d, r) {
            (Ok(_), Err(c)) if width < 32 && c == "option.invalid" => {
                obs.count("refused widths");
                return Ok(());
            }
            (Ok(_), Ok(_)) if width < 32 => return err("narrow", "width below the minimum accepted".into()),
            (Ok(d), Ok(s)) => (d, s),
            (Err(_), Err(_)) => return Ok(()),
            (a, b) => return err("outcome", format!("decode {:?}, table {:?}", a.err(), b.err())),
        };
        if width == 100 {
            let def = render(&case.bytes, case.key, Fmt::Table, None, enrich)?;
            if def.as_ref() != Ok(&s) {
                return err("default-width", "no width differs from 100".into());
            }
            if enrich && case.key.is_none() {
                let o = m_bus_parser::RenderOptions::default();
                let def = guard("table", || output::render_bytes(&case.bytes, Fmt::Table, &o))?;
                obs.count("default options");
                if def.as_ref() != Ok(&s) {
                    return err("default-options", "the default options differ from a width of 100".into());
                }
            }
        }
        if let Some(c) = s.chars().find(|c| c.is_control() && *c != '\n') {
            return err("control", format!("the table contains {c:?}"));
        }
        let (free, tables) = match read_tables(&s, width) {
            Ok(t) => t,
            Err((sig, m)) => return err(&sig, m),
        };
        let records = d["records"].as_array().unwrap();
        let t = |v: &Value| v.as_str().map_or_else(|| "—".to_string(), str::to_string);
        let id = &d["meter"]["identity"];
        // summary
        let mut want = vec![
            ("Function", t(&d["frame"]["function"])),
            ("Meter", t(&id["id"])),
            ("Manufacturer", t(&id["manufacturer_code"])),
            ("Device", t(&id["device_type"])),
            (
                "Security",
                format!("{} · {}", t(&d["security"]["payload_protection"]), t(&d["security"]["decryption_state"])),
            ),
        ];
        if !d["enrichment"].is_null() {
            want.push(("Manufacturer name", t(&d["enrichment"]["manufacturer_name"])));
            want.push(("Website", t(&d["enrichment"]["manufacturer_website"])));
            want.push(("Description", t(&d["enrichment"]["manufacturer_description"])));
        }
        let title = format!("{} {} frame · {} decode", t(&d["protocol"]), t(&d["frame"]["kind"]), t(&d["decode_state"]));
        if !squeeze(&free.join("")).starts_with(&squeeze(&title)) {
            return err("title", format!("{free:?}"));
        }
        let Some(sum) = tables.first() else { return err("summary", "no summary".into()) };
        let got: BTreeMap<&str, &str> = sum.rows.iter().filter(|r| r.len() == 2).map(|r| (r[0].as_str(), r[1].as_str())).collect();
        for (k, v) in &want {
            if got.get(squeeze(k).as_str()) != Some(&squeeze(v).as_str()) {
                return err(&format!("summary:{k}"), format!("expected {v:?}, got {:?}", got.get(squeeze(k).as_str())));
            }
        }
        if sum.rows.len() != want.len() {
            return err("summary:rows", format!("{} rows", sum.rows.len()));
        }
        // records, whatever the layout
        let diags = d["diagnostics"].as_array().unwrap();
        let body = &tables[1..tables.len() - usize::from(!diags.is_empty())];
        let layout;
        if records.is_empty() {
            layout = "none";
            if !body.is_empty() {
                return err("records:extra", format!("{} boxes", body.len()));
            }
        } else if body.len() == 1 && body[0].headers.len() > 2 {
            layout = "rows";
            let rows = &body[0].rows;
            if rows.len() != records.len() {
                return err("records:count", format!("expected {}, got {}", records.len(), rows.len()));
            }
            for (i, (row, r)) in rows.iter().zip(records).enumerate() {
                record_shown(row.concat(), i, r).or_else(|m| err(&format!("records:{}", m.0), m.1))?;
                if row[0] != i.to_string() {
                    return err("records:index", row[0].clone());
                }
            }
        } else {
            layout = "boxes";
            if body.len() != records.len() {
                return err("records:count", format!("expected {}, got {}", records.len(), body.len()));
            }
            for (i, (b, r)) in body.iter().zip(records).enumerate() {
                let all: String = b.rows.iter().map(|r| r[1].as_str()).collect();
                record_shown(all, i, r).or_else(|m| err(&format!("records:{}", m.0), m.1))?;
            }
            let heads = free.iter().filter(|l| l.starts_with("Record ")).count();
            if heads != records.len() {
                return err("records:headings", format!("{heads}"));
            }
        }
        if let (Some(t), false) = (tables.last(), diags.is_empty()) {
            if t.rows.len() != diags.len() {
                return err("diagnostics:count", format!("{}", t.rows.len()));
            }
            for (row, g) in t.rows.iter().zip(diags) {
                let w = squeeze(&format!("{}: {}", g["severity"].as_str().unwrap_or(""), g["message"].as_str().unwrap_or("")));
                if row[0] != g["code"].as_str().unwrap_or("") || row[1] != w {
                    return err("diagnostics:row", format!("{row:?} for {g}"));
                }
            }
        }
        obs.feature(&format!("{width} {layout} {} {:x}", records.len(), fnv(s.as_bytes()) & 0xFF));
        obs.count(layout);
        obs.sample(|| format!("width {width}, {} records, layout {layout}", records.len()));
        Ok(())
    }
}

/// Every part of a record is in the text of its row or box.
fn record_shown(text: String, i: usize, r: &Value) -> Result<(), (String, String)> {
    let raw = format!("{} {}", r["header_hex"].as_str().unwrap_or(""), r["data_hex"].as_str().unwrap_or(""));
    for (k, v) in [
        ("reading", reading_text(r)),
        ("function", r["function"].as_str().unwrap_or("?").to_string()),
        ("numbers", format!("{}/{}/{}", r["storage_number"], r["tariff"], r["subunit"])),
        ("coding", r["data_coding"].as_str().unwrap_or("?").to_string()),
        ("raw", raw),
    ] {
        if !text.contains(&squeeze(&v)) {
            return Err((k.into(), format!("record {i}: {v:?} is not in {text:?}")));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

pub struct C19;

#[derive(Debug, Default)]
struct Chart {
    nodes: BTreeMap<String, (String, Option<String>)>,
    groups: BTreeMap<String, String>,
    edges: Vec<(String, String, String)>,
    class_defs: BTreeSet<String>,
    classes: BTreeMap<String, String>,
    styles: BTreeSet<String>,
    order: Vec<String>,
}

fn ident(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && s.as_bytes()[0].is_ascii_alphabetic() && s != "end"
}

/// Reader for the flowchart subset with quoted labels; anything else is an error.
fn read_chart(s: &str) -> Result<Chart, String> {
    let mut c = Chart::default();
    let mut lines = s.split('\n');
    if lines.next() != Some("flowchart TD") {
        return Err("does not start with flowchart TD".into());
    }
    let mut group: Option<String> = None;
    let label = |t: &str| -> Result<String, String> {
        let l = t.strip_prefix("[\"").and_then(|t| t.strip_suffix("\"]")).ok_or_else(|| format!("bad label {t:?}"))?;
        if l.contains('"') || l.chars().any(char::is_control) {
            return Err(format!("label not contained: {l:?}"));
        }
        if l.contains('<') || l.contains('>') {
            return Err(format!("markup in label: {l:?}"));
        }
        if l.contains("%%") {
            return Err(format!("directive in label: {l:?}"));
        }
        Ok(l.to_string())
    };
    for line in lines {
        let l = line.trim_start();
        if l.is_empty() {
            continue;
        }
        if let Some(t) = l.strip_prefix("subgraph ") {
            if group.is_some() {
                return Err("nested subgraph".into());
            }
            let k = t.find('[').ok_or("subgraph label")?;
            let id = &t[..k];
            if !ident(id) {
                return Err(format!("bad name {id:?}"));
            }
            if c.groups.insert(id.into(), label(&t[k..])?).is_some() {
                return Err(format!("{id} defined twice"));
            }
            group = Some(id.into());
        } else if l == "end" {
            if group.take().is_none() {
                return Err("end without subgraph".into());
            }
        } else if l == "direction LR" || l == "direction TD" || l == "direction TB" {
            if group.is_none() {
                return Err("direction outside a subgraph".into());
            }
        } else if let Some(t) = l.strip_prefix("classDef ") {
            let (n, def) = t.split_once(' ').ok_or("classDef")?;
            if !ident(n) || !def.bytes().all(|b| b.is_ascii_alphanumeric() || b":#,-".contains(&b)) {
                return Err(format!("bad classDef {t:?}"));
            }
            if !c.class_defs.insert(n.into()) {
                return Err(format!("class {n} defined twice"));
            }
        } else if let Some(t) = l.strip_prefix("class ") {
            let (ids, n) = t.split_once(' ').ok_or("class")?;
            if !ident(n) {
                return Err(format!("bad class {t:?}"));
            }
            for id in ids.split(',') {
                if !ident(id) {
                    return Err(format!("bad class member {id:?}"));
                }
                if c.classes.insert(id.into(), n.into()).is_some() {
                    return Err(format!("{id} is in two classes"));
                }
            }
        } else if let Some(t) = l.strip_prefix("style ") {
            let (n, def) = t.split_once(' ').ok_or("style")?;
            if !ident(n) || !def.bytes().all(|b| b.is_ascii_alphanumeric() || b":#,-".contains(&b)) {
                return Err(format!("bad style {t:?}"));
            }
            if !c.styles.insert(n.into()) {
                return Err(format!("{n} styled twice"));
            }
        } else if let Some(k) = l.find('[') {
            let id = &l[..k];
            if !ident(id) {
                return Err(format!("bad node line {l:?}"));
            }
            if c.nodes.insert(id.into(), (label(&l[k..])?, group.clone())).is_some() {
                return Err(format!("{id} defined twice"));
            }
            c.order.push(id.into());
        } else {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() != 3 || !ident(p[0]) || !ident(p[2]) || !["-->", "~~~"].contains(&p[1]) {
                return Err(format!("unknown line {l:?}"));
            }
            let e = (p[0].to_string(), p[1].to_string(), p[2].to_string());
            if c.edges.contains(&e) {
                return Err(format!("edge {l:?} twice"));
            }
            c.edges.push(e);
        }
    }
    if group.is_some() {
        return Err("subgraph not closed".into());
    }
    // references
    let known = |n: &str| c.nodes.contains_key(n) || c.groups.contains_key(n);
    for (a, _, b) in &c.edges {
        if !known(a) || !known(b) {
            return Err(format!("edge {a} {b} refers to nothing"));
        }
    }
    for (n, k) in &c.classes {
        if !c.nodes.contains_key(n) {
            return Err(format!("class on unknown node {n}"));
        }
        if !c.class_defs.contains(k) {
            return Err(format!("unknown class {k}"));
        }
    }
    for n in &c.styles {
        if !known(n) {
            return Err(format!("style on unknown {n}"));
        }
    }
    for n in c.nodes.keys() {
        if c.groups.contains_key(n) {
            return Err(format!("{n} is node and group"));
        }
        if !c.classes.contains_key(n) {
            return Err(format!("{n} has no class"));
        }
    }
    Ok(c)
}

/// Label text with its entities resolved.
fn unescape(l: &str) -> String {
    let mut s = String::new();
    let mut rest = l;
    while let Some(k) = rest.find('&') {
        s.push_str(&rest[..k]);
        rest = &rest[k..];
        let Some(e) = rest.find(';') else { break };
        match &rest[1..e] {
            "amp" => s.push('&'),
            "quot" => s.push('"'),
            "lt" => s.push('<'),
            "gt" => s.push('>'),
            "apos" => s.push('\''),
            x => match x.strip_prefix('#').and_then(|x| x.parse().ok()).and_then(char::from_u32) {
                Some(c) => s.push(c),
                None => s.push_str(&rest[..=e]),
            },
        }
        rest = &rest[e + 1..];
    }
    s.push_str(rest);
    s
}

fn visible(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect()
}

impl Monitor for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "distinct diagrams (node labels and edges)"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(80_000, 400_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = rich_telegram(idx, rng);
        c.nums = vec![rng.below(2) as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{}: {m}", hex(&case.bytes))));
        let enrich = case.nums[0] == 1;
        let d = enriched_doc(&case.bytes, case.key, enrich)?;
        let r = render(&case.bytes, case.key, Fmt::Mermaid, None, enrich)?;
        obs.eval();
        let (d, s) = match (d, r) {
            (Ok(d), Ok(s)) => (d, s),
            (Err(_), Err(_)) => return Ok(()),
            (a, b) => return err("outcome", format!("decode {:?}, mermaid {:?}", a.err(), b.err())),
        };
        let c = match read_chart(&s) {
            Ok(c) => c,
            Err(m) => return err("syntax", format!("{m}\n{s}")),
        };
        // expected sections and labels
        let t = |v: &Value| v.as_str().unwrap_or("").to_string();
        let records = d["records"].as_array().unwrap();
        let mut want: BTreeMap<String, (String, Option<&str>)> = BTreeMap::new();
        let mut put = |id: String, l: String, g: Option<&'static str>| {
            want.insert(id, (l, g));
        };
        put("FRAME_KIND".into(), format!("{} · {}", t(&d["protocol"]), t(&d["frame"]["kind"])), Some("Frame"));
        if d["frame"]["function"].is_string() {
            put("FRAME_FUNCTION".into(), format!("Function · {}", t(&d["frame"]["function"])), Some("Frame"));
        }
        if d["frame"]["address"].is_string() {
            put("FRAME_ADDRESS".into(), format!("Address · {}", t(&d["frame"]["address"])), Some("Frame"));
        }
        let id = &d["meter"]["identity"];
        if id.is_object() {
            put("METER_ID".into(), format!("ID · {}", id["id"].as_str().unwrap_or("unknown")), Some("Meter"));
            put(
                "METER_MANUFACTURER".into(),
                format!("Manufacturer · {}", id["manufacturer_code"].as_str().unwrap_or("unknown manufacturer")),
                Some("Meter"),
            );
            if id["device_type"].is_string() {
                put("METER_TYPE".into(), format!("Type · {}", t(&id["device_type"])), Some("Meter"));
            }
            if id["version"].is_number() {
                put("METER_VERSION".into(), format!("Version · {}", id["version"]), Some("Meter"));
            }
        }
        put("SECURITY_MODE".into(), t(&d["security"]["payload_protection"]), Some("Security"));
        put("SECURITY_STATE".into(), t(&d["security"]["decryption_state"]), Some("Security"));
        for (i, r) in records.iter().enumerate() {
            put(format!("R{i}"), reading_text(r), Some("records"));
        }
        let diags = d["diagnostics"].as_array().unwrap();
        if let Some(g) = diags.first() {
            put("DIAG".into(), format!("{} diagnostic(s) · {}", diags.len(), t(&g["code"])), None);
        }
        // names are the renderer's business; labels, groups and counts are not
        let group_name = |g: &Option<String>| -> Option<String> {
            g.as_ref().map(|g| {
                let l = &c.groups[g];
                if l.starts_with("Data Records") {
                    "records".into()
                } else {
                    l.clone()
                }
            })
        };
        let mut got: Vec<(Option<String>, String)> = c.nodes.values().map(|(l, g)| (group_name(g), visible(&unescape(l)))).collect();
        let mut exp: Vec<(Option<String>, String)> = want.values().map(|(l, g)| (g.map(str::to_string), visible(l))).collect();
        got.sort();
        exp.sort();
        if got != exp {
            let miss: Vec<_> = exp.iter().filter(|x| !got.contains(x)).collect();
            let extra: Vec<_> = got.iter().filter(|x| !exp.contains(x)).collect();
            return err("nodes", format!("missing {miss:?}, unexpected {extra:?}"));
        }
        // records in order, one node each
        let rec: Vec<String> = c
            .order
            .iter()
            .filter(|n| group_name(&c.nodes[*n].1).as_deref() == Some("records"))
            .map(|n| visible(&unescape(&c.nodes[n].0)))
            .collect();
        let wr: Vec<String> = records.iter().map(|r| visible(&reading_text(r))).collect();
        if rec != wr {
            return err("record-order", format!("{rec:?}"));
        }
        if let Some(g) = c.groups.values().find(|l| l.starts_with("Data Records")) {
            if *g != format!("Data Records · {}", records.len()) {
                return err("record-count", g.clone());
            }
        } else if !records.is_empty() {
            return err("record-count", "no record section".into());
        }
        // every section hangs off the frame
        let mut reach: BTreeSet<&str> = BTreeSet::new();
        let mut todo: Vec<&str> = c.groups.iter().filter(|g| g.1 == "Frame").map(|g| g.0.as_str()).collect();
        while let Some(n) = todo.pop() {
            if reach.insert(n) {
                todo.extend(c.edges.iter().filter(|e| e.0 == n && e.1 == "-->").map(|e| e.2.as_str()));
            }
        }
        for g in c.groups.keys().chain(c.nodes.iter().filter(|n| n.1 .1.is_none()).map(|n| n.0)) {
            if !reach.contains(g.as_str()) {
                return err("unconnected", g.clone());
            }
        }
        obs.feature_hash(fnv(format!("{:?}", got).as_bytes()));
        obs.count("diagrams");
        obs.sample(|| format!("{} nodes, {} edges, {} records", c.nodes.len(), c.edges.len(), records.len()));
        Ok(())
    }
}

// ---------------------------------------------------------------- C23

pub struct C23;

/// Format names and aliases.
fn format_of(name: &str) -> Option<Fmt> {
    let n: String = name.trim().chars().map(|c| c.to_ascii_lowercase()).collect();
    Some(match n.as_str() {
        "table" | "table_format" => Fmt::Table,
        "json" => Fmt::Json,
        "yaml" | "yml" => Fmt::Yaml,
        "csv" => Fmt::Csv,
        "mermaid" => Fmt::Mermaid,
        "xml" => Fmt::Xml,
        "annotated" | "hexview" => Fmt::Annotated,
        "annotated-text" => Fmt::AnnotatedText,
        _ => return None,
    })
}

fn layer_of(code: &str) -> &'static str {
    match code {
        "input.empty" | "input.invalid_hex" => "input",
        "frame.invalid" => "link",
        "format.unsupported" | "option.invalid" | "render.serialization" => "render",
        c if c.starts_with("security.") => "security",
        _ => "application",
    }
}

const NAMES: &[&str] = &[
    "table", "table_format", "json", "yaml", "yml", "csv", "mermaid", "xml", "annotated", "hexview", "annotated-text",
];

impl Monitor for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "distinct (input class, format, option class, outcome code) tuples and distinct format names tried"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(70_000, 500_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx % 4 == 0 {
            let mut c = Case::new("name");
            let mut n = rng.pick(NAMES).to_string();
            match rng.below(8) {
                0 => n = n.to_uppercase(),
                1 => n = n.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
                2 => n = format!(" {n}\n"),
                3 => {
                    let i = rng.usize(n.len() + 1);
                    n.insert(i, *rng.pick(&['x', ' ', '-', '_', '.', '\0', 'é', '1']));
                }
                4 => {
                    let i = rng.usize(n.len());
                    n.remove(i);
                }
                5 => {
                    n = rng
                        .pick(&["", "text", "html", "toml", "annotated_text", "annotatedtext", "json5", "hex", "tables", "json-legacy", "ｊson", "jſon", "yaML ", "md", "csv,json", "annotated text", "hex-view", "ndjson", "mermaıd", "XML", "pretty"])
                        .to_string()
                }
                _ => {}
            }
            c.text = n;
            c.bytes = if rng.chance(1, 3) { rng.bytes(9) } else { telegram(rng.u64(), rng).bytes };
            return c;
        }
        let mut c = match rng.below(8) {
            0 => Case::bytes("empty", vec![]),
            1 => {
                let k = 1 + rng.usize(30);
                Case::bytes("random", rng.bytes(k))
            }
            2 => {
                // damaged frames
                let mut b = gen::gen_frame(rng, PLAIN);
                let i = rng.usize(b.len());
                b[i] ^= 1 << rng.below(8);
                Case::bytes("damaged", b)
            }
            3 => {
                let s = gen::gen_secured(rng, PLAIN);
                Case::bytes("secured", s.frame).with_key(Some(rng.arr()))
            }
            _ => telegram(rng.u64(), rng),
        };
        let w = *rng.pick(&[-1i64, 0, 1, 31, 32, 33, 80, 100]);
        c.nums = vec![w, rng.below(3) as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let err = |sig: &str, m: String| Err(Fail::new(sig, format!("{} {:?}: {m}", hex(b), case.text)));
        if case.kind == "name" {
            let want = format_of(&case.text);
            let got = guard("from_str", || Fmt::from_str(&case.text))?;
            obs.eval();
            match (want, &got) {
                (Some(w), Ok(g)) if w == *g => {}
                (None, Err(e)) => {
                    if e.code() != "format.unsupported" || e.layer() != "render" || e.byte_offset().is_some() {
                        return err("name:code", format!("{} {}", e.code(), e.layer()));
                    }
                }
                (w, g) => return err("name:outcome", format!("expected {w:?}, got {g:?}")),
            }
            if let Some(w) = want {
                if Fmt::from_str(w.as_str()).ok() != Some(w) {
                    return err("name:roundtrip", w.as_str().into());
                }
            }
            // the string wrapper with that name
            let legacy = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"].contains(&case.text.as_str());
            if !legacy {
                let h = hex(b);
                let s = guard("serialize_mbus_data", || serialize_mbus_data(&h, &case.text, None))?;
                obs.eval();
                let direct = match want {
                    Some(f) => {
                        let o = ropts(None, Some(100), true);
                        match guard("render_hex", || output::render_hex(&h, f, &o))? {
                            Ok(s) => s,
                            Err(e) => format!("Error [{}]: {e}", e.code()),
                        }
                    }
                    None => match got {
                        Err(e) => format!("Error [{}]: {e}", e.code()),
                        Ok(_) => String::new(),
                    },
                };
                if s != direct {
                    return err("wrapper", format!("expected {:?}, got {:?}", first(&direct), first(&s)));
                }
            }
            obs.feature(&case.text);
            obs.count(if want.is_some() { "known names" } else { "unknown names" });
            return Ok(());
        }
        let width = if case.nums[0] < 0 { None } else { Some(case.nums[0] as usize) };
        let want_doc = model_doc(b, case.key).map(|_| ());
        let direct = guard("decode_bytes", || output::decode_bytes(b, &opts(case.key)))?;
        obs.eval();
        let code = |e: &output::OutputError| e.code().to_string();
        match (&want_doc, &direct) {
            (Ok(()), Ok(_)) => {}
            (Err(w), Err(g)) if *w == g.code() => {}
            (w, g) => return err("decode", format!("expected {w:?}, got {:?}", g.as_ref().map(|_| ()).map_err(code))),
        }
        if let Err(e) = &direct {
            check_error(e).or_else(|m| err("error-shape", m))?;
        }
        for f in FORMATS {
            let o = ropts(case.key, width, case.nums[1] == 0);
            let r = guard(f.as_str(), || output::render_bytes(b, f, &o))?;
            obs.eval();
            if let Err(e) = &r {
                check_error(e).or_else(|m| err(&format!("{}:error-shape", f.as_str()), m))?;
            }
            let got = r.as_ref().map(|_| ()).map_err(code);
            let want: Option<Result<(), String>> = match f {
                Fmt::Json | Fmt::Yaml | Fmt::Csv | Fmt::Mermaid => Some(want_doc.map_err(str::to_string)),
                Fmt::Table => Some(match want_doc {
                    Ok(()) if width.is_some_and(|w| w < 32) => Err("option.invalid".into()),
                    w => w.map_err(str::to_string),
                }),
                // bytes that are no frame are refused by every format
                Fmt::Xml => match want_doc {
                    Err("input.empty" | "frame.invalid") => Some(Err("xml.unsupported".into())),
                    Err(_) => Some(Err("xml.unsupported".into())),
                    Ok(()) => None,
                },
                Fmt::Annotated | Fmt::AnnotatedText => match want_doc {
                    Err("input.empty") => Some(Err(if f == Fmt::Annotated { "?".into() } else { "annotation.failed".into() })),
                    Err("frame.invalid") => None,
                    _ => Some(Ok(())),
                },
                _ => None,
            };
            if let Some(w) = want {
                let same = match &w {
                    Err(c) if c == "?" => got.is_err(),
                    w => *w == got,
                };
                if !same {
                    return err(&format!("{}:outcome", f.as_str()), format!("expected {w:?}, got {got:?}"));
                }
            }
            if let Ok(s) = &r {
                if s.trim().is_empty() {
                    return err(&format!("{}:empty", f.as_str()), "empty output".into());
                }
            }
            obs.feature(&format!("{} {} {:?} {:?}", case.kind, f.as_str(), width.map(|w| w < 32), got));
            // the string wrapper reports the same failure
            let h = hex(b);
            let s = guard("serialize_mbus_data", || serialize_mbus_data(&h, f.as_str(), case.key.as_ref()))?;
            let o = ropts(case.key, Some(100), true);
            let d = match guard("render_hex", || output::render_hex(&h, f, &o))? {
                Ok(s) => s,
                Err(e) => format!("Error [{}]: {e}", e.code()),
            };
            obs.eval();
            if s != d {
                return err(&format!("{}:wrapper", f.as_str()), format!("expected {:?}, got {:?}", first(&d), first(&s)));
            }
        }
        // strict record API
        let r = guard("decode_data_records", || output::decode_data_records(b))?;
        obs.eval();
        if let Err(e) = &r {
            check_error(e).or_else(|m| err("records:error-shape", m))?;
            let w = if b.is_empty() { "input.empty" } else { "application.records_invalid" };
            if e.code() != w {
                return err("records:code", e.code().to_string());
            }
        } else if b.is_empty() {
            return err("records:empty", "no records from no bytes".into());
        }
        obs.sample(|| format!("{} {} -> {:?}", case.kind, hex(b), direct.as_ref().map(|_| ()).map_err(code)));
        Ok(())
    }
}

fn first(s: &str) -> String {
    s.chars().take(200).collect()
}

fn check_error(e: &output::OutputError) -> Result<(), String> {
    let c = e.code();
    let known = [
        "input.empty",
        "input.invalid_hex",
        "frame.invalid",
        "format.unsupported",
        "option.invalid",
        "security.unsupported_mode",
        "security.invalid_key",
        "security.decryption_failed",
        "security.feature_unavailable",
        "security.unknown_state",
        "xml.unsupported",
        "annotation.failed",
        "application.records_invalid",
    ];
    if !known.contains(&c) {
        return Err(format!("undocumented code {c}"));
    }
    if e.layer() != layer_of(c) {
        return Err(format!("{c} has layer {}", e.layer()));
    }
    if e.to_string().trim().is_empty() {
        return Err(format!("{c} has no message"));
    }
    if e.byte_offset().is_some() != (c == "input.invalid_hex") {
        return Err(format!("{c} has offset {:?}", e.byte_offset()));
    }
    Ok(())
}
