//! C28: the typed API, its serde form and the legacy strings against the canonical document.

use super::common::*;
use super::text;
use crate::engine::*;
use crate::gen;
use crate::model::record::{Field, Rec, Val, MONTHS};
use crate::model::vif::display_units;
use crate::model::{mfr_letters, mode_name, status_name, App, Link};
use m_bus_parser::mbus_data::{parse_to_csv, parse_to_json, parse_to_mermaid, serialize_mbus_data, MbusData};
use m_bus_parser::{WiredFrame, WirelessFrame};
use serde_json::{json, Value};

pub struct C28;

const LEGACY: [&str; 5] = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"];

fn field(f: &Field) -> Value {
    match f {
        Field::One(n) => json!({ "Single": n }),
        Field::Every => json!({ "Every": [] }),
        Field::Invalid => json!({ "Invalid": [] }),
    }
}

fn month(f: &Field) -> Value {
    match f {
        Field::One(n) => json!({ "Single": MONTHS[*n as usize - 1] }),
        f => field(f),
    }
}

/// Serde form of a value.
fn typed_value(v: &Val, data: &[u8]) -> Value {
    match v {
        Val::None => Value::Null,
        Val::Manufacturer => json!({ "ManufacturerSpecific": hex(data) }),
        Val::Float(x) => json!({ "Number": f64::from(*x) }),
        Val::Number(s) => json!({ "Number": s.parse::<f64>().unwrap_or(f64::NAN) }),
        Val::Text(s) => json!({ "Text": s }),
        Val::Date { day, month: m, year } => json!({ "Date": [field(day), month(m), field(year)] }),
        Val::Time { second, minute, hour } => json!({ "Time": [field(second), field(minute), field(hour)] }),
        Val::DateTime { day, month: m, year, hour, minute, second: None } => {
            json!({ "DateTime": [field(day), month(m), field(year), field(hour), field(minute)] })
        }
        Val::DateTime { day, month: m, year, hour, minute, second: Some(s) } => {
            json!({ "DateTimeWithSeconds": [field(day), month(m), field(year), field(hour), field(minute), field(s)] })
        }
    }
}

/// Beyond the integers a double holds exactly: equal up to the rounding of a long sum.
fn close(a: &Value, b: &Value) -> bool {
    matches!((a.as_f64(), b.as_f64()), (Some(a), Some(b)) if b.abs() > 9007199254740992.0 && (a - b).abs() <= b.abs() * 1e-12)
}

fn spaced(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// What the typed API holds for one telegram, as serde JSON.
fn typed(b: &[u8], normalized: &[u8], wired: bool) -> Result<Result<Value, String>, Fail> {
    guard("MbusData", || {
        if wired {
            MbusData::<WiredFrame>::try_from(b).map_err(|e| e.to_string()).map(|m| serde_json::to_value(&m).unwrap_or_default())
        } else {
            MbusData::<WirelessFrame>::try_from(normalized)
                .map_err(|e| e.to_string())
                .map(|m| serde_json::to_value(&m).unwrap_or_default())
        }
    })
}

fn check_record(r: &Rec, area: &[u8], got: &Value, h: &str, i: usize) -> Verdict {
    let bad = |s: &str, m: String| Err(Fail::new(s, format!("{h}: record {i}: {m}")));
    let head = &got["data_record_header"]["processed_data_record_header"];
    let raw = &area[r.start..r.end];
    if got["raw_bytes"] != hex(raw) {
        return bad("typed-raw", format!("raw bytes {}, expected {}", got["raw_bytes"], hex(raw)));
    }
    let want = typed_value(&r.value, &raw[r.header..]);
    let mut v = got["data"]["value"].clone();
    if let Some(o) = v.as_object_mut() {
        if let Some(n) = o.remove("LossyNumber") {
            o.insert("Number".into(), n);
        }
    }
    let lossy = close(&v["Number"], &want["Number"]);
    if v != want && !lossy {
        return bad("typed-value", format!("value {v}, expected {want}"));
    }
    let di = &head["data_information"];
    if !matches!(r.value, Val::Manufacturer)
        && (di["storage_number"] != r.storage || di["tariff"] != r.tariff || di["device"] != r.subunit)
    {
        return bad("typed-address", format!("data information {di}, expected {} {} {}", r.storage, r.tariff, r.subunit));
    }
    if !matches!(r.value, Val::Manufacturer) && names(r).is_some_and(|(f, c, _)| di["function_field"] != f || di["data_field_coding"] != c) {
        return bad("typed-coding", format!("data information {di}, expected {} {}", r.function, r.coding));
    }
    let dib = &got["data_record_header"]["raw_data_record_header"]["data_information_block"];
    if dib["data_information_field"]["data"] != raw[0] {
        return bad("typed-dif", format!("data information block {dib}"));
    }
    if got["data"]["size"] != raw.len() - r.header {
        return bad("typed-size", format!("data size {}, expected {}", got["data"]["size"], raw.len() - r.header));
    }
    let vi = &head["value_information"];
    match &r.vib {
        Some(w) => {
            if !repeated(r) && vi["decimal_offset_exponent"] != w.offset.unwrap_or(0) {
                return bad("typed-offset", format!("value information {vi}, expected {w:?}"));
            }
            let units: Vec<Value> = w.units.iter().map(|(n, e)| json!({"name": n, "exponent": e})).collect();
            if vi["labels"] != json!(w.labels) || vi["units"] != json!(units) || vi["decimal_scale_exponent"] != w.scale {
                return bad("typed-unit", format!("value information {vi}, expected {w:?}"));
            }
        }
        None => {
            if !vi.is_null() && vi["units"].as_array().is_none_or(|u| !u.is_empty()) {
                return bad("typed-unit", format!("value information {vi} without a VIF"));
            }
        }
    }
    Ok(())
}

/// Typed names of a record's function and coding, and how the legacy texts show both.
fn names(r: &Rec) -> Option<(&'static str, &'static str, &'static str)> {
    let f = match r.function {
        "Instantaneous value" => ("InstantaneousValue", "Inst"),
        "Maximum value" => ("MaximumValue", "Max"),
        "Minimum value" => ("MinimumValue", "Min"),
        "Value during error state" => ("ValueDuringErrorState", "Value During Error State"),
        _ => return None,
    };
    let c = match r.coding {
        "No data" => ("NoData", "No Data"),
        "8-bit integer" => ("Integer8Bit", "8-bit Integer"),
        "16-bit integer" => ("Integer16Bit", "16-bit Integer"),
        "24-bit integer" => ("Integer24Bit", "24-bit Integer"),
        "32-bit integer" => ("Integer32Bit", "32-bit Integer"),
        "48-bit integer" => ("Integer48Bit", "48-bit Integer"),
        "64-bit integer" => ("Integer64Bit", "64-bit Integer"),
        "32-bit real" => ("Real32Bit", "32-bit Real"),
        "Selection for readout" => ("SelectionForReadout", "Selection for Readout"),
        "2-digit BCD" => ("BCD2Digit", "BCD 2-digit"),
        "4-digit BCD" => ("BCD4Digit", "BCD 4-digit"),
        "6-digit BCD" => ("BCD6Digit", "BCD 6-digit"),
        "8-digit BCD" => ("BCD8Digit", "BCD 8-digit"),
        "12-digit BCD" => ("BCDDigit12", "BCD 12-digit"),
        "Variable length" => ("VariableLength", "Variable Length"),
        "Date (type G)" => ("DateTypeG", "Date Type G"),
        "Time (type J)" => ("DateTimeTypeJ", "Date Time Type J"),
        "Date and time (type F)" => ("DateTimeTypeF", "Date Time Type F"),
        "Date and time (type I)" => ("DateTimeTypeI", "Date Time Type I"),
        _ => return None,
    };
    Some((f.0, c.0, Box::leak(format!("{},{}", f.1, c.1).into_boxed_str())))
}

/// How the legacy texts show a date or time.
fn shown_moment(v: &Val) -> Option<String> {
    let f = |f: &Field| match f {
        Field::One(n) => n.to_string(),
        Field::Every => "Every".into(),
        Field::Invalid => "Invalid".into(),
    };
    let m = |x: &Field| match x {
        Field::One(n) => MONTHS[*n as usize - 1][..3].to_string(),
        x => f(x),
    };
    Some(match v {
        Val::Date { day, month, year } => format!("{}/{}/{}", f(day), m(month), f(year)),
        Val::Time { second, minute, hour } => format!("{}:{}:{}", f(hour), f(minute), f(second)),
        Val::DateTime { day, month, year, hour, minute, second } => format!(
            "{}/{}/{} {}:{}:{}",
            f(day),
            m(month),
            f(year),
            f(hour),
            f(minute),
            second.as_ref().map_or("00".into(), f)
        ),
        _ => return None,
    })
}

/// More than one additive correction.
fn repeated(r: &Rec) -> bool {
    r.vifes.iter().filter(|v| (0x78..=0x7B).contains(&(**v & 0x7F))).count() > 1
}

/// What the legacy texts show behind a value.
fn shown_unit(r: &Rec) -> String {
    let mut s = String::new();
    let Some(v) = &r.vib else { return ")".into() };
    if let Some(o) = v.offset.filter(|o| *o != 0) {
        s += &format!("+{o}");
    }
    s.push(')');
    if v.scale != 0 {
        s += &format!("e{}", v.scale);
    }
    if !v.units.is_empty() {
        s += &format!("[{}]", display_units(&v.units));
    }
    if !v.labels.is_empty() {
        s += &format!("({})", v.labels.join(", "));
    }
    s
}

/// The function as the legacy texts name it.
fn shown_function(canonical: &str) -> String {
    let (name, rest) = canonical.split_once(' ').unwrap_or((canonical, ""));
    match name {
        "SND_NKE" => "SndNk".into(),
        "SND_NR" => "SndNr".into(),
        "SND_UD" => format!("SndUd {rest}"),
        "REQ_UD2" => format!("ReqUd2 {rest}"),
        "REQ_UD1" => format!("ReqUd1 {rest}"),
        "RSP_UD" => format!("RspUd {rest}"),
        _ => canonical.into(),
    }
}

/// One record of the legacy summary.
fn check_summary_record(r: &Rec, area: &[u8], got: &Value, h: &str, i: usize) -> Verdict {
    let bad = |s: &str, m: String| Err(Fail::new(s, format!("{h}: record {i}: {m}: {got}")));
    let raw = &area[r.start..r.end];
    if got["header_hex"] != spaced(&raw[..r.header]) || got["data_hex"] != spaced(&raw[r.header..]) {
        return bad("legacy-hex", "bytes differ".into());
    }
    let shown = got["display"].as_str().unwrap_or("");
    match &r.value {
        Val::Number(_) | Val::Float(_) => {
            let n = typed_value(&r.value, &[])["Number"].clone();
            let g = got.get("value").cloned().unwrap_or(Value::Null);
            let long = n.as_f64().is_some_and(|n| n.abs() > 9007199254740992.0);
            if g != n && !(long && close(&g, &n)) {
                return bad("legacy-value", format!("expected {n}"));
            }
            let scale = r.vib.as_ref().map_or(0, |v| v.scale);
            if got.get("exponent").and_then(Value::as_i64).unwrap_or(0) != scale {
                return bad("legacy-exponent", format!("expected {scale}"));
            }
            let mut start = match &r.value {
                Val::Float(x) => format!("({}", f64::from(*x)),
                _ => format!("({}", n.as_f64().unwrap_or(0.0)),
            };
            if r.vib.as_ref().is_none_or(|v| v.offset.is_none()) {
                start.push(')');
                if scale != 0 {
                    start += &format!("e{scale}");
                }
            }
            if long {
                start = "(".into();
            }
            // a negative zero may show its sign
            if !shown.replacen("(-0)", "(0)", 1).replacen("(-0+", "(0+", 1).starts_with(&start.replacen("(-0", "(0", usize::from(n.as_f64() == Some(0.0)))) {
                return bad("legacy-display", format!("display does not start with {start}"));
            }
        }
        Val::Text(t) => {
            if !shown.starts_with(&format!("({t}")) {
                return bad("legacy-display", format!("display does not hold {t:?}"));
            }
        }
        Val::Manufacturer => {
            let list: Vec<String> = raw[r.header..].iter().map(u8::to_string).collect();
            if !shown.contains(&format!("[{}]", list.join(", "))) {
                return bad("legacy-display", format!("display does not hold {list:?}"));
            }
        }
        v => {
            if let Some(w) = shown_moment(v) {
                if !shown.starts_with(&format!("({w}")) {
                    return bad("legacy-display", format!("display does not start with {w}"));
                }
            }
        }
    }
    if !repeated(r) && !shown.ends_with(&shown_unit(r)) {
        return bad("legacy-display", format!("display does not end with {}", shown_unit(r)));
    }
    let labels = r.vib.as_ref().map(|v| v.labels.join(", ")).unwrap_or_default();
    if got.get("quantity").and_then(Value::as_str).unwrap_or("") != labels {
        return bad("legacy-quantity", format!("expected {labels}"));
    }
    let unit = r.vib.as_ref().filter(|v| !v.units.is_empty()).map(|v| display_units(&v.units));
    if got.get("unit").and_then(Value::as_str) != unit.as_deref() {
        return bad("legacy-unit", format!("expected {unit:?}"));
    }
    let info = got["data_information"].as_str().unwrap_or("");
    if !matches!(r.value, Val::Manufacturer) && info.split(',').next() != Some(&r.storage.to_string()) {
        return bad("legacy-storage", format!("expected storage number {}", r.storage));
    }
    if !matches!(r.value, Val::Manufacturer) && names(r).is_some_and(|(_, _, s)| info != format!("{},{s}", r.storage)) {
        return bad("legacy-information", format!("expected {} {} {}", r.storage, r.function, r.coding));
    }
    Ok(())
}

impl C28 {
    /// Any text: the legacy strings stay well formed.
    fn formed(&self, t: &str, key: Option<[u8; 16]>, obs: &mut Obs) -> Result<Value, Fail> {
        let short: String = t.chars().take(200).collect();
        let mut first = Value::Null;
        for f in LEGACY {
            obs.eval();
            let s = guard(f, || serialize_mbus_data(t, f, key.as_ref()))?;
            let bad = |m: String| Fail::new(format!("{f}-malformed"), format!("{f} of {short:?}: {m}"));
            match f {
                "csv-wide" => {
                    let rows = read_csv(&s).map_err(bad)?;
                    if rows.len() != 2 || rows[0].len() != rows[1].len() || rows[0].is_empty() {
                        return Err(bad(format!("{} rows", rows.len())));
                    }
                    if s != guard("parse_to_csv", || parse_to_csv(t, key.as_ref()))? {
                        return Err(bad("differs from the direct call".into()));
                    }
                }
                "yaml-legacy" => {
                    let y: serde_yaml::Value = serde_yaml::from_str(&s).map_err(|e| bad(e.to_string()))?;
                    let as_json = untag(&y);
                    let undecodable = y.get("error").is_some();
                    if undecodable != first.as_object().is_some_and(|o| o.is_empty()) {
                        return Err(bad("error here, but not in JSON".into()));
                    }
                    // the same data as the JSON, NaN apart
                    if !undecodable {
                        if let Some(d) = differ(&first, &as_json) {
                            return Err(Fail::new("legacy-yaml-json", format!("{short:?}: YAML and JSON differ at {d}")));
                        }
                    }
                }
                _ => {
                    let v: Value = serde_json::from_str(&s).map_err(|e| bad(e.to_string()))?;
                    if f == "json-legacy" {
                        if s != guard("parse_to_json", || parse_to_json(t, key.as_ref()))? {
                            return Err(bad("differs from the direct call".into()));
                        }
                        first = v;
                    }
                }
            }
        }
        let m = guard("parse_to_mermaid", || parse_to_mermaid(t, key.as_ref()))?;
        chart(&m).map_err(|e| Fail::new("mermaid-malformed", format!("mermaid of {short:?}: {e}")))?;
        Ok(first)
    }

    fn telegram(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let h = hex(b);
        let bad = |s: &str, m: String| Err(Fail::new(s, format!("{h}: {m}")));
        let text = if case.text.is_empty() { h.clone() } else { case.text.clone() };
        let legacy = self.formed(&text, case.key, obs)?;
        let Some(p) = both(case, obs)? else {
            // nothing to compare with; the frame may be rejected only after normalisation
            obs.feature("rejected");
            // a refused key is an error only in the canonical decode
            if real_doc(b, None)?.is_err() && legacy.as_object().is_some_and(|o| !o.is_empty()) {
                return bad("legacy-accepts", "legacy output for an undecodable telegram".into());
            }
            return Ok(());
        };
        let wired = p.got["protocol"] == "wired";
        let t = match typed(b, &p.want.framed.normalized, wired)? {
            Ok(t) => t,
            Err(e) => return bad("typed-rejects", e),
        };
        let s = &legacy["summary"];
        if s.is_null() {
            return bad("legacy-rejects", "no legacy output".into());
        }
        let mut plain = legacy.clone();
        plain.as_object_mut().map(|o| o.remove("summary"));

        // frame fields
        let kind = match &p.want.framed.link {
            Link::Single => "SingleCharacter",
            Link::Short { .. } => "ShortFrame",
            Link::Control { .. } => "ControlFrame",
            Link::Long { .. } => "LongFrame",
            Link::Wireless { .. } => "Wireless",
        };
        obs.feature(&format!("{kind} {} {}", p.got["security"]["decryption_state"], p.got["transport"]["header_kind"]));
        if s["frame_type"] != kind {
            return bad("legacy-frame", format!("frame type {}", s["frame_type"]));
        }
        if t["frame"] != plain["frame"] || t["user_data"] != plain["user_data"] {
            return bad("legacy-typed", format!("legacy JSON {} {} differs from the typed API {} {}", plain["frame"], plain["user_data"], t["frame"], t["user_data"]));
        }
        for (k, c) in [("address", "address")] {
            if s.get(k).unwrap_or(&Value::Null) != p.got["frame"].get(c).unwrap_or(&Value::Null) {
                return bad("legacy-frame", format!("{k} {:?}, document {}", s.get(k), p.got["frame"]));
            }
        }
        if let Some(f) = p.got["frame"]["function"].as_str() {
            if s["function"] != shown_function(f) {
                return bad("legacy-function", format!("function {}, document {f}", s["function"]));
            }
        }
        typed_frame(&p.want.framed.link, &p.want.framed.normalized, &t["frame"]).map_err(|m| Fail::new("typed-frame", format!("{h}: {m}")))?;
        if let Some((app, _)) = &p.want.app {
            typed_header(app, &t["user_data"]).map_err(|m| Fail::new("typed-header", format!("{h}: {m}")))?;
            let (status, cfg) = match app {
                App::Long { status, cfg, .. } | App::Short { status, cfg, .. } => (Some(*status), Some(*cfg)),
                App::Fixed { status, .. } => (Some(*status), None),
                _ => (None, None),
            };
            if s.get("status").and_then(Value::as_str) != status.map(status_name).as_deref() {
                return bad("legacy-status", format!("status {}, expected {status:?}", s["status"]));
            }
            let mode = cfg.map(|c| mode_name((c >> 8 & 0x1F) as u8));
            if s.get("security_mode").and_then(Value::as_str) != mode.as_deref() {
                return bad("legacy-mode", format!("security mode {}, expected {mode:?}", s["security_mode"]));
            }
        }
        // identity
        let id = &p.got["meter"]["identity"];
        let fixed_wireless = !wired && matches!(p.want.app, Some((App::Fixed { .. }, _)));
        if id.is_object() && !fixed_wireless {
            for (k, w) in [
                ("identification_number", &id["id"]),
                ("version", &id["version"]),
                ("device_type", &id["device_type"]),
            ] {
                if k == "device_type" && matches!(p.want.app, Some((App::Fixed { .. }, _))) {
                    continue;
                }
                if !w.is_null() && s.get(k) != Some(w) {
                    return bad("legacy-identity", format!("{k} {:?}, document {w}", s.get(k)));
                }
            }
            let code = &id["manufacturer_code"];
            let shown = &s["manufacturer"]["code"];
            if code.is_string() && shown != code {
                return bad("legacy-identity", format!("manufacturer {shown}, document {code}"));
            }
            if code.is_string() {
                let known = m_bus_parser::manufacturers::lookup_manufacturer(code.as_str().unwrap_or(""));
                let want = known.map(|k| [k.name, k.website, k.description]);
                let got = &s["manufacturer"];
                if want.is_some() != got["name"].is_string()
                    || want.is_some_and(|w| got["name"] != w[0] || got["website"] != w[1] || got["description"] != w[2])
                {
                    return bad("legacy-manufacturer", format!("{got}, registry {want:?}"));
                }
            }
        }
        if let Some(a) = p.got["transport"]["access_numbers"].as_array().and_then(|a| a.iter().rfind(|a| a["source"] != "ell")) {
            if a["source"].as_str().is_some_and(|s| s.starts_with("tpl") || s.ends_with("fixed")) && s["access_number"] != a["value"] {
                return bad("legacy-access", format!("access number {}, document {a}", s["access_number"]));
            }
        }
        // records
        let state = p.got["security"]["decryption_state"].as_str().unwrap_or("").to_string();
        let protection = p.got["security"]["payload_protection"].as_str().unwrap_or("").to_string();
        if (s["decrypted"] == true) != state.starts_with("decrypted") || (s["encrypted"] == true) != (protection == "encrypted") {
            return bad("legacy-security", format!("{} {}, document {state} {protection}", s["encrypted"], s["decrypted"]));
        }
        let cipher = p.got["security"]["encrypted_payload_hex"].as_str();
        if state.starts_with("decrypted") || protection != "encrypted" {
            if !s["encrypted_payload_hex"].is_null() {
                return bad("legacy-ciphertext", format!("{}", s["encrypted_payload_hex"]));
            }
        } else if let (Some(c), Some(got)) = (cipher, s["encrypted_payload_hex"].as_str()) {
            // the document has the whole application layer, the summary what follows its header
            let b = unhex(c).unwrap_or_default();
            let n = guard("UserDataBlock", || m_bus_parser::user_data::UserDataBlock::try_from(&b[..]).map_or(b.len(), |u| u.variable_data_len()))?;
            if *got != hex(&b[b.len() - n.min(b.len())..]) {
                return bad("legacy-ciphertext", format!("{got}, document {c}"));
            }
        }
        let records = match &p.want.area {
            Some((area, parsed)) => {
                let list = plain["data_records"].as_array().cloned().unwrap_or_default();
                let canonical = p.got["records"].as_array().map_or(0, Vec::len);
                if list.len() != parsed.records.len() || canonical != parsed.records.len() {
                    return bad(
                        "record-count",
                        format!("{} typed, {} expected, {canonical} canonical", list.len(), parsed.records.len()),
                    );
                }
                let sums = s["records"].as_array().cloned().unwrap_or_default();
                if sums.len() != list.len() {
                    return bad("legacy-record-count", format!("{} in the summary, {} typed", sums.len(), list.len()));
                }
                for (i, r) in parsed.records.iter().enumerate() {
                    obs.eval();
                    check_record(r, area, &list[i], &h, i)?;
                    check_summary_record(r, area, &sums[i], &h, i)?;
                    obs.feature(&format!("{} {}", r.coding, r.vif.unwrap_or(0)));
                }
                if case.key.is_none() && t["data_records"] != plain["data_records"] {
                    return bad("legacy-typed", "records differ from the typed API".into());
                }
                sums.len()
            }
            None => {
                if s["records"].as_array().is_some_and(|r| !r.is_empty()) {
                    return bad("legacy-protected", format!("{} records, none in the document", s["records"]));
                }
                0
            }
        };
        // older flowchart
        let m = guard("parse_to_mermaid", || parse_to_mermaid(&text, case.key.as_ref()))?;
        let node = |id: &str| {
            m.lines().find_map(|l| l.trim_start().strip_prefix(id)?.strip_prefix("[\"")?.strip_suffix("\"]").map(plain_label))
        };
        if protection != "encrypted" {
            let n = (0..).take_while(|i| node(&format!("R{i}")).is_some()).count();
            // the chart shows the records of long and wireless frames only
            let long = matches!(p.want.framed.link, Link::Long { .. } | Link::Wireless { .. });
            if long && n != records {
                return bad("chart-records", format!("{n} nodes for {records} records"));
            }
            for i in 0..n {
                let want = plain_label(s["records"][i]["display"].as_str().unwrap_or(""));
                let got = node(&format!("R{i}")).unwrap_or_default();
                if got != want && want.strip_suffix(')') != Some(&got) {
                    return bad("chart-record", format!("record {i} is {got:?}, expected {want:?}"));
                }
            }
        }
        if let (Some(f), Some(a)) = (s["function"].as_str(), s["address"].as_str()) {
            if node("FUNC") != Some(format!("Function: {f}")) || node("ADDR") != Some(format!("Address: {a}")) {
                return bad("chart-frame", format!("{:?} {:?}, expected {f} {a}", node("FUNC"), node("ADDR")));
            }
        }
        if let (Link::Long { .. }, Some((App::Long { .. }, _))) = (&p.want.framed.link, &p.want.app) {
            for (id, name, k) in [
                ("DEV1", "ID", &s["identification_number"]),
                ("DEV2", "Manufacturer", &s["manufacturer"]["code"]),
                ("DEV3", "Version", &s["version"]),
                ("DEV5", "Access Number", &s["access_number"]),
                ("DEV6", "Status", &s["status"]),
                ("DEV7", "Name", &s["manufacturer"]["name"]),
            ] {
                let want = k.as_str().map_or_else(|| k.to_string(), str::to_string);
                let want = (!k.is_null()).then(|| plain_label(&format!("{name}: {want}")));
                if node(id) != want {
                    return bad("chart-device", format!("{:?}, expected {want:?}", node(id)));
                }
            }
        }
        if let Link::Wireless { id, .. } = &p.want.framed.link {
            if node("MFR").is_some_and(|m| Some(&m["Manufacturer: ".len()..]) != mfr_letters(id.mfr).as_deref())
                || node("VER") != Some(format!("Version: {}", id.version))
                || node("ID").is_none_or(|t| !t.contains(&id.id.to_string()))
            {
                return bad("chart-identity", format!("{:?} {:?} {:?}, expected {id:?}", node("MFR"), node("VER"), node("ID")));
            }
        }
        // wide CSV
        let csv = guard("csv-wide", || serialize_mbus_data(&text, "csv-wide", case.key.as_ref()))?;
        let rows = read_csv(&csv).map_err(|e| Fail::new("csv-wide-malformed", e))?;
        let cell = |v: &Value| v.as_str().map_or_else(|| if v.is_null() { String::new() } else { v.to_string() }, str::to_string);
        let mut want = vec![
            cell(&s["frame_type"]),
            cell(&s["function"]),
            cell(&s["address"]),
            cell(&s["identification_number"]),
            cell(&s["manufacturer"]["code"]),
            cell(&s["manufacturer"]["name"]),
            cell(&s["access_number"]),
            cell(&s["status"]),
            cell(&s["security_mode"]),
            cell(&s["version"]),
            cell(&s["device_type"]),
        ];
        for i in 0..records {
            want.push(cell(&s["records"][i]["display"]));
            want.push(cell(&s["records"][i]["data_information"]));
        }
        if rows[1] != want {
            return bad("csv-wide", format!("row {:?}, expected {want:?}", rows[1]));
        }
        for i in 1..=records {
            if rows[0].get(9 + 2 * i).map(String::as_str) != Some(&format!("DataPoint{i}_Value")) {
                return bad("csv-wide-header", format!("header {:?}", rows[0]));
            }
        }
        // annotations
        let ann = guard("annotated-legacy", || serialize_mbus_data(&text, "annotated-legacy", None))?;
        let a: Value = serde_json::from_str(&ann).map_err(|e| Fail::new("annotated-legacy-malformed", e.to_string()))?;
        let c = render(b, None, Fmt::Annotated, None, true)?.map_err(|e| Fail::new("annotated", format!("{h}: {e}")))?;
        let c: Value = serde_json::from_str(&c).map_err(|e| Fail::new("annotated", e.to_string()))?;
        if a != c["segments"] {
            return bad("annotated-legacy", "segments differ from the canonical annotations".into());
        }
        let hv = guard("hexview-legacy", || serialize_mbus_data(&text, "hexview-legacy", case.key.as_ref()))?;
        let hv: Value = serde_json::from_str(&hv).map_err(|e| Fail::new("hexview-legacy-malformed", e.to_string()))?;
        let c = render(b, case.key, Fmt::Annotated, None, true)?.map_err(|e| Fail::new("annotated", format!("{h}: {e}")))?;
        let c: Value = serde_json::from_str(&c).map_err(|e| Fail::new("annotated", e.to_string()))?;
        let same = if c["decrypted"] == true {
            hv["bytes"] == c["bytes"] && hv["segments"] == c["segments"] && hv["decrypted"] == true
        } else {
            hv == c["segments"]
        };
        if !same {
            return bad("hexview-legacy", "view differs from the canonical annotations".into());
        }
        obs.sample(|| format!("{h}: {kind}, {records} records"));
        Ok(())
    }
}

/// Label without the escapes of the older flowchart; control characters and blanks are alike.
fn plain_label(s: &str) -> String {
    s.replace("#quot;", "\"")
        .replace("#91;", "[")
        .replace("#93;", "]")
        .replace("#37;", "%")
        .chars()
        .map(|c| if c.is_control() { ' ' } else { c })
        .collect()
}

/// Serde form of a frame.
fn typed_frame(link: &Link, normalized: &[u8], got: &Value) -> Result<(), String> {
    let function = |c: u8| match c {
        0x40 => json!({ "SndNk": { "prm": false } }),
        0x44 => json!("SndNr"),
        0x53 | 0x73 => json!({ "SndUd": { "fcb": c & 0x20 != 0 } }),
        0x5B | 0x7B => json!({ "ReqUd2": { "fcb": c & 0x20 != 0 } }),
        0x5A | 0x7A => json!({ "ReqUd1": { "fcb": c & 0x20 != 0 } }),
        _ => json!({ "RspUd": { "acd": c & 0x20 != 0, "dfc": c & 0x10 != 0 } }),
    };
    let address = |a: u8| match a {
        0 => json!("Uninitalized"),
        253 => json!("Secondary"),
        254 | 255 => json!({ "Broadcast": { "reply_required": a == 254 } }),
        a => json!({ "Primary": a }),
    };
    let (kind, control, a) = match link {
        Link::Single => return Ok(()),
        Link::Short { control, address } => ("ShortFrame", *control, *address),
        Link::Control { control, address, .. } => ("ControlFrame", *control, *address),
        Link::Long { control, address, .. } => ("LongFrame", *control, *address),
        Link::Wireless { control, id, at, len } => {
            let m = &got["manufacturer_id"];
            let code: String = m["manufacturer_code"]["code"].as_array().into_iter().flatten().filter_map(Value::as_str).collect();
            if got["control_field"] != *control
                || Some(&code) != mfr_letters(id.mfr).as_ref()
                || m["identification_number"]["number"] != id.id
                || m["version"] != id.version
                || got["data"].as_str().is_some_and(|d| d != hex(&normalized[*at..*at + *len]))
            {
                return Err(format!("wireless frame {got}, expected {link:?}"));
            }
            return Ok(());
        }
    };
    let f = &got[kind];
    if f["function"] != function(control) || f["address"] != address(a) {
        return Err(format!("frame {got}, expected {kind} {} {}", function(control), address(a)));
    }
    Ok(())
}

/// Serde form of a transport header.
fn typed_header(app: &App, got: &Value) -> Result<(), String> {
    let short = |h: &Value, access: u8, cfg: u16| h["access_number"] == access && h["configuration_field"]["raw"] == cfg;
    let ok = match app {
        App::Long { id, mfr, version, access, cfg, msb_first, .. } => {
            let h = &got["VariableDataStructureWithLongTplHeader"]["long_tpl_header"];
            let code: String =
                h["manufacturer"]["Ok"]["code"].as_array().into_iter().flatten().filter_map(Value::as_str).collect();
            h["identification_number"]["number"] == *id
                && h["version"] == *version
                && code == mfr_letters(*mfr).unwrap_or_default()
                && h["lsb_order"] == *msb_first
                && short(&h["short_tpl_header"], *access, *cfg)
        }
        App::Short { access, cfg, .. } => {
            short(&got["VariableDataStructureWithShortTplHeader"]["short_tpl_header"], *access, *cfg)
        }
        App::Fixed { id, access, counters, .. } => {
            let h = &got["FixedDataStructure"];
            h["identification_number"]["number"] == *id
                && h["access_number"] == *access
                && h["counter1"]["count"] == counters[0]
                && h["counter2"]["count"] == counters[1]
        }
        _ => true,
    };
    if ok { Ok(()) } else { Err(format!("header {got}, expected {app:?}")) }
}

/// YAML as JSON; a tagged value is an object with the tag as its only key.
fn untag(y: &serde_yaml::Value) -> Value {
    use serde_yaml::Value as Y;
    match y {
        Y::Null => Value::Null,
        Y::Bool(b) => json!(b),
        Y::Number(n) => serde_json::to_value(n).unwrap_or_default(),
        Y::String(s) => json!(s),
        Y::Sequence(a) => a.iter().map(untag).collect(),
        Y::Mapping(m) => m.iter().map(|(k, v)| (k.as_str().unwrap_or("").to_string(), untag(v))).collect::<serde_json::Map<_, _>>().into(),
        Y::Tagged(t) => {
            let tag = t.tag.to_string();
            json!({ tag.trim_start_matches('!'): untag(&t.value) })
        }
    }
}

/// First path where two documents differ; null equals a non-finite number.
fn differ(a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                if let Some(d) = differ(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null)) {
                    return Some(format!("{k}.{d}"));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (x, y))| differ(x, y).map(|d| format!("{i}.{d}")))
        }
        (Value::Number(x), Value::Number(y)) if x.as_f64() == y.as_f64() => None,
        _ if a == b => None,
        _ => Some(format!(" {a} / {b}")),
    }
}

/// The older flowchart: quoted labels that end on their own line, balanced groups, known line forms.
fn chart(s: &str) -> Result<(), String> {
    let mut lines = s.lines();
    if lines.next() != Some("flowchart TD") {
        return Err("does not start with flowchart TD".into());
    }
    let id = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_');
    let mut open = 0;
    let mut nodes = std::collections::BTreeSet::new();
    for l in lines {
        let l = l.trim_start();
        if l == "end" {
            open -= 1;
            if open < 0 {
                return Err("end without subgraph".into());
            }
            continue;
        }
        let group = l.strip_prefix("subgraph ");
        let t = group.unwrap_or(l);
        if let Some(k) = t.find("[\"") {
            let label = t[k + 2..].strip_suffix("\"]").ok_or_else(|| format!("label is not closed in {l:?}"))?;
            if !id(&t[..k]) || label.contains('"') || label.chars().any(|c| c.is_control()) {
                return Err(format!("line {l:?}"));
            }
            open += i32::from(group.is_some());
            if !nodes.insert(t[..k].to_string()) {
                return Err(format!("{} is defined twice", &t[..k]));
            }
        } else if let Some(t) = l.strip_prefix("style ") {
            let (n, d) = t.split_once(' ').ok_or_else(|| format!("line {l:?}"))?;
            if !nodes.contains(n) || !d.bytes().all(|c| c.is_ascii_alphanumeric() || b":#,".contains(&c)) {
                return Err(format!("style line {l:?}"));
            }
        } else {
            let (a, b) = l.split_once(" --> ").or_else(|| l.split_once("~~~")).ok_or_else(|| format!("line {l:?}"))?;
            if !id(a) || !id(b) {
                return Err(format!("line {l:?}"));
            }
            if !nodes.contains(a) || !nodes.contains(b) {
                return Err(format!("edge {l:?} refers to nothing"));
            }
        }
    }
    if open != 0 {
        return Err("subgraph is not closed".into());
    }
    Ok(())
}

/// Spellings the legacy reader accepts.
fn spelled(rng: &mut Rng, b: &[u8]) -> String {
    let sep = *rng.pick(&["", " ", ",", ", "]);
    let pre = if sep.is_empty() { *rng.pick(&["", "0x"]) } else { *rng.pick(&["", "0x", "x"]) };
    let lower = rng.chance(1, 3);
    let mut s: Vec<String> = vec![];
    for x in b {
        s.push(if lower { format!("{pre}{x:02x}") } else { format!("{pre}{x:02X}") });
    }
    let s = s.join(sep);
    match rng.below(4) {
        0 => format!(" \t{s}\n"),
        1 => format!("{s}\r\n"),
        _ => s,
    }
}

impl Monitor for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "distinct (frame kind, decryption state, header kind) and (coding, VIF) combinations compared, and malformed text classes"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "values are compared as the double the typed API holds; the canonical decimal text is judged by C08",
            "a second additive correction in one record is not compared, the typed API adds the exponents",
            "records a typed or legacy view derives from ciphertext are not compared, the canonical document has none",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(30_000, 220_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        match idx % 8 {
            0 => {
                // text that is not quite hex
                let mut c = Case::new("text");
                let t = telegram(rng.u64(), rng);
                let mut s: Vec<char> = spelled(rng, &t.bytes).chars().collect();
                for _ in 0..rng.range(1, 6) {
                    let k = rng.usize(s.len() + 1);
                    let n = rng.below(4);
                    match n {
                        0 if k < s.len() => {
                            s.remove(k);
                        }
                        1 => s.insert(k, *rng.pick(&['G', 'x', '"', '\\', '\n', 'é', '0', '€', '\0', '-', '+', '𝄞'])),
                        2 => s.truncate(k),
                        _ if k < s.len() => s[k] = *rng.pick(&['F', '0', ' ', ',', 'z', 'µ', '"', '+']),
                        _ => {}
                    }
                }
                c.text = s.into_iter().collect();
                c.key = t.key;
                c
            }
            1..=2 => {
                let mut c = text::rich_telegram(rng.u64(), rng);
                c.text = spelled(rng, &c.bytes);
                c.kind = "rich".into();
                c
            }
            3 => {
                let n = rng.usize(7) + 1;
                let mut a = vec![];
                for _ in 0..n {
                    a.extend(text::hostile_text_record(rng));
                }
                Case::bytes("hostile", wrap_records(rng, &a))
            }
            4 => {
                let a = gen::gen_records(rng, 12, PLAIN);
                let mut c = Case::bytes("records", wrap_records(rng, &a));
                c.text = spelled(rng, &c.bytes);
                c
            }
            _ => telegram(idx / 8 * 5 + idx % 8, rng),
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        if case.kind == "text" {
            let v = self.formed(&case.text, case.key, obs)?;
            obs.feature(&format!("text {} {}", v.as_object().map_or(0, |o| o.len()), case.text.is_ascii()));
            return Ok(());
        }
        self.telegram(case, obs)
    }
}
