//! C21: byte annotations against the reference decode.

use super::common::*;
use super::text::rich_telegram;
use crate::engine::*;
use crate::gen::{self, crc16};
use crate::model::record::{Field, Val};
use crate::model::{self, record, Link};
use m_bus_parser::annotate::{annotate_and_render, annotate_frame, ByteSegment};
use serde_json::Value;

pub struct C21;

type Label = (&'static str, Option<usize>);

/// Position in the original input of every byte left after Format A checksums were removed.
fn kept(d: &[u8]) -> Vec<usize> {
    let mut m: Vec<usize> = (0..10).collect();
    let mut at = 12;
    while at < d.len() {
        let left = d.len() - at;
        let hit = if left < 3 {
            None
        } else {
            (1..=16.min(left - 2)).rev().find(|n| crc16(&d[at..at + n]).to_be_bytes() == d[at + n..at + n + 2])
        };
        match hit {
            Some(n) => {
                m.extend(at..at + n);
                at += n + 2;
            }
            None => {
                m.extend(at..d.len());
                break;
            }
        }
    }
    m
}

fn fill(l: &mut [Label], s: &'static str) {
    for x in l {
        *x = (s, None);
    }
}

/// Labels of a record area.
pub fn record_labels(area: &[u8], p: &record::Parsed, l: &mut [Label]) {
    for &o in &p.skipped {
        l[o] = (if area[o] == 0x2F { "idle_filler" } else { "unknown" }, None);
    }
    for (i, r) in p.records.iter().enumerate() {
        let g = Some(i);
        let mut at = r.start;
        let mut put = |n: usize, s: &'static str| {
            for x in &mut l[at..at + n] {
                *x = (s, g);
            }
            at += n;
        };
        match area[r.start] {
            0x0F | 0x1F => {
                put(r.end - r.start, "manufacturer_specific");
                continue;
            }
            0x7F => {
                put(1, "dif");
                continue;
            }
            _ => {}
        }
        put(1, "dif");
        put(r.difes, "dife");
        if r.vif.is_some() {
            put(1, "vif");
            let text = r.plain.as_ref().map_or(0, |p| p.len() + 1);
            if PLAIN {
                put(text, "plaintext_vif");
                put(r.vifes.len(), "vife");
            } else {
                put(r.vifes.len(), "vife");
                put(text, "plaintext_vif");
            }
        }
        put(r.end - r.start - r.header, "data_payload");
    }
    if let Some((o, _)) = p.error {
        fill(&mut l[o..], "unknown");
    }
}

/// What the description of a record's data says.
fn shown(v: &Val) -> Option<String> {
    let f = |f: &Field| match f {
        Field::One(n) => n.to_string(),
        Field::Every => "Every".into(),
        Field::Invalid => "Invalid".into(),
    };
    let date = |day: &Field, month: &Field, year: &Field| {
        let m = match month {
            Field::One(n) => record::MONTHS[usize::from(*n) - 1][..3].to_string(),
            m => f(m),
        };
        format!("{}/{m}/{}", f(day), f(year))
    };
    Some(match v {
        Val::Number(n) => n.parse::<f64>().ok()?.to_string(),
        Val::Float(x) => f64::from(*x).to_string(),
        Val::Text(t) => t.clone(),
        Val::Date { day, month, year } => date(day, month, year),
        Val::Time { second, minute, hour } => format!("{}:{}:{}", f(hour), f(minute), f(second)),
        Val::DateTime { day, month, year, hour, minute, second } => format!(
            "{} {}:{}:{}",
            date(day, month, year),
            f(hour),
            f(minute),
            second.as_ref().map_or("00".into(), f)
        ),
        _ => return None,
    })
}

/// Fills in the labels and gives what is said of each record's data.
fn app_labels(p: &[u8], l: &mut [Label], clear: Option<&[u8]>) -> Vec<Option<String>> {
    let mut said = vec![];
    let Some(&ci) = p.first() else { return said };
    let mut area = |from: usize, encrypted: bool, msb: bool, l: &mut [Label]| {
        if encrypted && clear.is_none() {
            fill(&mut l[from..], "encrypted_payload");
        } else {
            let a = clear.unwrap_or(&p[from..]);
            let parsed = record::parse(a, msb, PLAIN);
            record_labels(a, &parsed, &mut l[from..]);
            said = parsed.records.iter().map(|r| shown(&r.value)).collect();
        }
    };
    match ci {
        0x72 | 0x76 if p.len() >= 13 => {
            for (r, s) in [
                (0..1, "ci_field"),
                (1..5, "identification_number"),
                (5..7, "manufacturer_code"),
                (7..8, "version"),
                (8..9, "device_type"),
                (9..10, "access_number"),
                (10..11, "status"),
                (11..13, "configuration_field"),
            ] {
                fill(&mut l[r], s);
            }
            let encrypted = p[12] & 0x1F != 0;
            if !encrypted && model::application(p).is_none() {
                fill(&mut l[13..], "unknown");
            } else {
                area(13, encrypted, ci == 0x76, l);
            }
        }
        0x7A | 0xA0..=0xAF if p.len() >= 5 + usize::from(ci == 0xA0) => {
            let mut k = 1;
            l[0] = ("ci_field", None);
            if ci == 0xA0 {
                l[1] = ("encryption_config_byte", None);
                k = 2;
            }
            l[k] = ("access_number", None);
            l[k + 1] = ("status", None);
            fill(&mut l[k + 2..k + 4], "configuration_field");
            area(k + 4, p[k + 3] & 0x1F != 0, false, l);
        }
        0x78 => {
            l[0] = ("ci_field", None);
            area(1, false, false, l);
        }
        0x8C if p.len() >= 3 => {
            l[0] = ("ci_field", None);
            fill(&mut l[1..3], "extended_link_layer");
            match p.get(3) {
                Some(0x78 | 0x7A | 0xA0..=0xAF) => return app_labels(&p[3..], &mut l[3..], clear),
                _ => fill(&mut l[3..], "unknown"),
            }
        }
        0x8D | 0x8E => {
            let n = if ci == 0x8D { 9 } else { 17 };
            if p.len() < n {
                fill(l, "unknown");
                return said;
            }
            l[0] = ("ci_field", None);
            fill(&mut l[1..n], "extended_link_layer");
            fill(&mut l[n..], "encrypted_payload");
        }
        _ => fill(l, "unknown"),
    }
    said
}

/// Role of every byte of a frame that was accepted; `clear` replaces an encrypted payload.
fn labels(link: &Link, d: &[u8], clear: Option<&[u8]>) -> (Vec<Label>, Vec<Option<String>>) {
    let mut said = vec![];
    let n = d.len();
    let mut l: Vec<Label> = vec![("", None); n];
    let names: &[&'static str] = match link {
        Link::Single => &["start_byte"],
        Link::Short { .. } => &["start_byte", "c_field", "a_field", "checksum", "stop_byte"],
        Link::Long { .. } | Link::Control { .. } => &["start_byte", "length", "length", "start_byte", "c_field", "a_field"],
        Link::Wireless { .. } => &[
            "l_field",
            "c_field",
            "manufacturer_code",
            "manufacturer_code",
            "identification_number",
            "identification_number",
            "identification_number",
            "identification_number",
            "version",
            "device_type",
        ],
    };
    for (x, s) in l.iter_mut().zip(names) {
        *x = (s, None);
    }
    match *link {
        Link::Control { at, len, .. } => {
            fill(&mut l[at..at + len], "unknown");
        }
        Link::Long { at, len, .. } | Link::Wireless { at, len, .. } => {
            said = app_labels(&d[at..at + len], &mut l[at..at + len], clear);
        }
        _ => {}
    }
    match *link {
        Link::Control { .. } | Link::Long { .. } => {
            l[n - 2] = ("checksum", None);
            l[n - 1] = ("stop_byte", None);
        }
        Link::Wireless { at, len, .. } => fill(&mut l[at + len..], "crc"),
        _ => {}
    }
    (l, said)
}

#[derive(Debug, PartialEq, Clone)]
struct Seg {
    start: usize,
    end: usize,
    kind: String,
    detail: String,
    group: Option<usize>,
    layer: String,
}

fn seg(v: &Value) -> Option<Seg> {
    Some(Seg {
        start: v.get("start")?.as_u64()? as usize,
        end: v.get("end")?.as_u64()? as usize,
        kind: v.get("kind")?.as_str()?.to_string(),
        detail: v.get("detail")?.as_str()?.to_string(),
        group: match v.get("group")? {
            Value::Null => None,
            g => Some(g.as_u64()? as usize),
        },
        layer: v.get("layer")?.as_str()?.to_string(),
    })
}

fn segs(v: &Value) -> Option<Vec<Seg>> {
    v.as_array()?.iter().map(seg).collect()
}

fn from_api(s: &[ByteSegment]) -> Option<Vec<Seg>> {
    segs(&serde_json::to_value(s).ok()?)
}

fn tile(s: &[Seg], n: usize, what: &str, b: &[u8]) -> Verdict {
    let mut at = 0;
    for x in s {
        if x.start != at || x.end <= x.start {
            return Err(Fail::new(
                format!("{what}-tiling"),
                format!("{}: {what} segment {}..{} after offset {at}", hex(b), x.start, x.end),
            ));
        }
        at = x.end;
    }
    if at != n {
        return Err(Fail::new(format!("{what}-cover"), format!("{}: {what} segments end at {at} of {n}", hex(b))));
    }
    Ok(())
}

/// Segments agree with the expected role of every byte.
fn roles(s: &[Seg], l: &[Label], said: &[Option<String>], bytes: &[u8], what: &str, b: &[u8]) -> Verdict {
    let cable = s.last().is_some_and(|x| x.kind == "stop_byte");
    let size = |x: &Seg| s.iter().filter(|y| y.kind == x.kind && y.group == x.group).map(|y| y.end - y.start).sum::<usize>();
    for x in s {
        for (o, (kind, group)) in l.iter().enumerate().take(x.end).skip(x.start) {
            if x.kind != *kind {
                return Err(Fail::new(
                    format!("{what}-kind-{kind}"),
                    format!("{}: {what} byte {o} is labelled {}, expected {kind}", hex(b), x.kind),
                ));
            }
            if x.group != *group {
                return Err(Fail::new(
                    format!("{what}-group"),
                    format!("{}: {what} byte {o} ({kind}) is in group {:?}, expected {group:?}", hex(b), x.group),
                ));
            }
        }
        let v = &bytes[x.start..x.end];
        let layer = match x.kind.as_str() {
            "start_byte" | "length" | "c_field" | "a_field" | "checksum" | "stop_byte" | "l_field" | "crc" => "frame",
            "ci_field" | "access_number" | "status" | "configuration_field" | "encryption_config_byte"
            | "extended_link_layer" => "app_header",
            "dif" | "dife" | "vif" | "vife" | "plaintext_vif" | "data_payload" | "encrypted_payload"
            | "manufacturer_specific" | "idle_filler" => "record_field",
            // part of both
            "identification_number" | "manufacturer_code" | "version" | "device_type" if x.start < 10 && !cable => "frame",
            "identification_number" | "manufacturer_code" | "version" | "device_type" if cable => "app_header",
            _ => x.layer.as_str(),
        };
        if x.layer != layer {
            return Err(Fail::new(
                format!("{what}-layer-{}", x.kind),
                format!("{}: {what} {} at {} is in layer {}, expected {layer}", hex(b), x.kind, x.start, x.layer),
            ));
        }
        // fields split by a checksum describe the whole field
        let both: String = v.iter().map(|b| format!("{b:02X}")).collect();
        let swapped: String = v.iter().rev().map(|b| format!("{b:02X}")).collect();
        let whole = match x.kind.as_str() {
            "identification_number" => v.len() == 4,
            "manufacturer_code" | "configuration_field" => v.len() == 2,
            _ => false,
        };
        if whole && !x.detail.contains(&both) && !x.detail.contains(&swapped) {
            return Err(Fail::new(
                format!("{what}-detail-{}", x.kind),
                format!("{}: {what} {} at {} says {:?}, expected {both}", hex(b), x.kind, x.start, x.detail),
            ));
        }
        let want = match x.kind.as_str() {
            "version" | "access_number" => v[0].to_string(),
            "status" | "device_type" | "checksum" | "vif" => format!("0x{:02X}", v[0]),
            "dif" | "encryption_config_byte" => format!("0x{:02X}", v[0]),
            "ci_field" | "stop_byte" | "start_byte" => format!("0x{:02X}", v[0]),
            "c_field" if s[0].kind == "l_field" => format!("0x{:02X}", v[0]),
            "c_field" => model::function_name(v[0]).unwrap_or_default().to_string(),
            "a_field" => model::address_name(v[0]),
            // a checksum may stand in between
            "dife" | "vife" => size(x).to_string(),
            "manufacturer_specific" => {
                let whole = size(x);
                let first = bytes[s.iter().find(|y| y.kind == x.kind && y.group == x.group).map_or(x.start, |y| y.start)];
                let word = if first == 0x1F { "More" } else { "Manufacturer" };
                if !x.detail.contains(word) || !x.detail.contains(&format!("0x{first:02X}")) {
                    return Err(Fail::new(
                        format!("{what}-detail-{}", x.kind),
                        format!("{}: {what} {} at {} says {:?} of {first:02X}", hex(b), x.kind, x.start, x.detail),
                    ));
                }
                whole.to_string()
            }
            // removing checksums corrects the length
            "l_field" if s.iter().any(|x| x.kind == "crc") => continue,
            "l_field" | "length" => v[0].to_string(),
            "data_payload" => match x.group.and_then(|g| said.get(g)).cloned().flatten() {
                Some(t) => t,
                None => continue,
            },
            "crc" if v.len() == 2 => format!("0x{:02X}{:02X}", v[0], v[1]),
            "plaintext_vif" if v[1..].iter().all(|c| (0x20..0x7F).contains(c)) && v.len() == usize::from(v[0]) + 1 => {
                v[1..].iter().map(|c| *c as char).collect()
            }
            _ => continue,
        };
        // long numbers are shown rounded
        let near = |w: f64| x.detail.split(' ').any(|t| t.parse::<f64>().is_ok_and(|t| (t - w).abs() <= w.abs() * 1e-12));
        let rounded = x.kind == "data_payload" && want.len() >= 15 && want.parse::<f64>().is_ok_and(near);
        if !rounded && !x.detail.contains(&want) {
            return Err(Fail::new(
                format!("{what}-detail-{}", x.kind),
                format!("{}: {what} {} at {} says {:?}, expected {want:?}", hex(b), x.kind, x.start, x.detail),
            ));
        }
    }
    Ok(())
}

fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// The text rendering lists the same segments and the same bytes.
fn text_rows(text: &str, s: &[Seg], d: &[u8]) -> Result<(), String> {
    let mut lines = text.lines();
    let mut dumped = vec![];
    let mut rows = vec![];
    let mut records = vec![];
    let mut layers: Vec<(usize, &str)> = vec![];
    for l in lines.by_ref() {
        if l.trim().is_empty() {
            break;
        }
        let t = l.trim_start();
        let Some((off, rest)) = t.split_once("  ") else { continue };
        let Ok(o) = usize::from_str_radix(off, 16) else { continue };
        if off.len() < 4 {
            continue;
        }
        if o != dumped.len() {
            return Err(format!("dump row at {o}, expected {}", dumped.len()));
        }
        // at most sixteen pairs, in columns
        let n = (d.len() - o).min(16);
        let pairs: Vec<&str> = rest.split_whitespace().take(n).collect();
        for p in pairs {
            dumped.push(u8::from_str_radix(p, 16).map_err(|_| format!("dump cell {p:?}"))?);
        }
        let chars: String = d[o..o + n].iter().map(|b| if (0x20..0x7F).contains(b) { *b as char } else { '·' }).collect();
        if !l.ends_with(&chars) {
            return Err(format!("dump row {l:?} does not end with {chars:?}"));
        }
    }
    if dumped != d {
        return Err("hex dump differs from the input".into());
    }
    for l in lines {
        if let Some(r) = l.strip_prefix("┌─ ") {
            layers.push((rows.len(), r.trim_end_matches('─').trim()));
        }
        if let Some(r) = l.strip_prefix("│  ") {
            if let Some(n) = r.strip_prefix("── Record ") {
                records.push((rows.len(), n.split(' ').next().and_then(|x| x.parse::<usize>().ok()).ok_or("record header")?));
            } else {
                rows.push(words(r));
            }
        }
    }
    if rows.len() != s.len() {
        return Err(format!("{} rows for {} segments", rows.len(), s.len()));
    }
    for (r, x) in rows.iter().zip(s) {
        let n = x.end - x.start;
        let off = if n == 1 { format!("[{:02X}]", x.start) } else { format!("[{:02X}..{:02X}]", x.start, x.end) };
        let mut h: Vec<String> = d[x.start..x.end].iter().take(8).map(|b| format!("{b:02X}")).collect();
        if n > 8 {
            h.push("...".into());
        }
        let kind: String = match x.kind.as_str() {
            "start_byte" => "Start Byte",
            "length" => "Length",
            "c_field" => "C Field",
            "a_field" => "A Field",
            "checksum" => "Checksum",
            "stop_byte" => "Stop Byte",
            "ci_field" => "CI Field",
            "identification_number" => "Identification Number",
            "manufacturer_code" => "Manufacturer Code",
            "version" => "Version",
            "device_type" => "Device Type",
            "access_number" => "Access Number",
            "status" => "Status",
            "configuration_field" => "Configuration Field",
            "encryption_config_byte" => "Encryption Config Byte",
            "dif" => "DIF",
            "dife" => "DIFE",
            "vif" => "VIF",
            "vife" => "VIFE",
            "plaintext_vif" => "Plaintext VIF",
            "data_payload" => "Data",
            "l_field" => "L Field",
            "crc" => "CRC",
            "extended_link_layer" => "Extended Link Layer",
            "encrypted_payload" => "Encrypted Payload",
            "manufacturer_specific" => "Manufacturer Specific",
            "idle_filler" => "Idle Filler",
            "unknown" => "Unknown",
            k => return Err(format!("kind {k}")),
        }
        .into();
        let detail: String = x.detail.chars().map(|c| if c.is_control() { '·' } else { c }).collect();
        let want = words(&format!("{off} {} {kind} {detail}", h.join(" ")));
        if *r != want {
            return Err(format!("row {r:?}, expected {want:?}"));
        }
    }
    // a layer heading precedes each change of layer, and nothing else
    let mut changes = vec![];
    let mut last = "";
    for (i, x) in s.iter().enumerate() {
        if x.layer != last {
            changes.push((
                i,
                match x.layer.as_str() {
                    "frame" => "Frame",
                    "app_header" => "Application Header",
                    "record_field" => "Data Records",
                    l => return Err(format!("layer {l}")),
                },
            ));
            last = &x.layer;
        }
    }
    if layers != changes {
        return Err(format!("layer headings {layers:?}, expected {changes:?}"));
    }
    for (i, g) in &records {
        let before = i.checked_sub(1).map(|j| (&s[j].layer, s[j].group));
        if s.get(*i).is_none_or(|x| before == Some((&x.layer, Some(*g)))) {
            return Err(format!("second heading of record {g} at row {i}"));
        }
    }
    // a record heading precedes the first segment of each record
    let mut want = vec![];
    let mut seen = None;
    for (i, x) in s.iter().enumerate() {
        if let Some(g) = x.group {
            if seen != Some(g) {
                want.push((i, g));
                seen = Some(g);
            }
        }
    }
    // a heading may be repeated after an interruption
    let firsts: Vec<(usize, usize)> = {
        let mut v: Vec<(usize, usize)> = vec![];
        for &(i, g) in &records {
            if v.iter().all(|x| x.1 != g) {
                v.push((i, g));
            }
        }
        v
    };
    if firsts != want {
        return Err(format!("record headings {records:?}, expected {want:?}"));
    }
    Ok(())
}

impl Monitor for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "distinct sequences of (segment kind, grouped) over accepted telegrams"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["telegrams whose frame is rejected after Format A checksums were removed are not compared"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(140_000, 800_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        match idx % 6 {
            0 => rich_telegram(rng.u64(), rng),
            1 => {
                let b = gen::gen_frame(rng, PLAIN);
                let cut = rng.usize(b.len().max(1));
                let mut b = b[..cut].to_vec();
                gen::refit(&mut b);
                Case::bytes("cut", b)
            }
            2 => {
                // every CI field, any length
                let ci = (idx / 6) as u8;
                let n = rng.usize(40);
                let mut app = vec![ci];
                app.extend(rng.bytes(n));
                let b = match rng.below(3) {
                    0 => gen::wired(*rng.pick(&[0x08u8, 0x53, 0x28]), rng.u8(), &app),
                    1 => gen::wireless_plain(&gen::gen_wireless_head(rng), &app),
                    _ => gen::wireless_format_a(&gen::gen_wireless_head(rng), &app),
                };
                Case::bytes("ci", b)
            }
            _ => telegram(rng.u64(), rng),
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let h = hex(b);
        let got = guard("annotate_frame", || annotate_frame(b))?;
        obs.eval();
        let framed = model::frame(b);
        if framed.is_err() && model::wired(b).is_none() && model::strip_format_a(b).is_some() {
            return Ok(());
        }
        let text = guard("annotate_and_render", || annotate_and_render(b))?;
        let rendered = render(b, None, Fmt::AnnotatedText, None, true)?;
        let json = render(b, case.key, Fmt::Annotated, None, true)?;
        let (framed, got) = match (framed, got) {
            (Err(_), Err(_)) => {
                obs.feature("refused");
                if text.is_ok() || rendered != Err("annotation.failed".into()) || json != Err("annotation.failed".into()) {
                    return Err(Fail::new("refused", format!("{h}: refused by annotate_frame but not by a rendering")));
                }
                return Ok(());
            }
            (Ok(f), Ok(g)) => (f, g),
            (f, g) => {
                return Err(Fail::new(
                    "outcome",
                    format!("{h}: annotated {}, expected {}", g.is_ok(), f.is_ok()),
                ))
            }
        };
        let bad = |s: &str, m: String| Fail::new(s, format!("{h}: {m}"));
        let s = from_api(&got).ok_or_else(|| bad("serialize", "segments do not serialize as documented".into()))?;
        tile(&s, b.len(), "input", b)?;

        // roles of the bytes of the original input
        let (norm, said) = labels(&framed.link, &framed.normalized, None);
        let mut l: Vec<Label> = vec![("crc", None); b.len()];
        if framed.normalized.len() != b.len() {
            for (x, o) in norm.iter().zip(kept(b)) {
                l[o] = *x;
            }
        } else {
            l = norm;
        }
        roles(&s, &l, &said, b, "input", b)?;
        let mut f: String = s.iter().map(|x| format!("{}{}", x.kind, if x.group.is_some() { "+" } else { "" })).collect::<Vec<_>>().join(",");
        f.truncate(300);
        obs.feature(&f);

        // text renderings
        let text = text.map_err(|e| bad("text", format!("no text rendering: {e:?}")))?;
        if rendered.as_ref() != Ok(&text) {
            return Err(bad("text-api", "annotate_and_render and the rendering differ".into()));
        }
        text_rows(&text, &s, b).map_err(|e| bad("text", e))?;

        // JSON rendering
        let json = json.map_err(|e| bad("json", format!("no JSON rendering: {e}")))?;
        let v: Value = serde_json::from_str(&json).map_err(|e| bad("json", e.to_string()))?;
        let bytes = |v: &Value| -> Option<Vec<u8>> { v.as_array()?.iter().map(|x| u8::try_from(x.as_u64()?).ok()).collect() };
        let shown = bytes(&v["bytes"]).ok_or_else(|| bad("json-bytes", "no bytes".into()))?;
        let listed = segs(&v["segments"]).ok_or_else(|| bad("json-segments", "no segments".into()))?;
        if v["schema_version"] != 3 {
            return Err(bad("json-version", format!("schema_version {}", v["schema_version"])));
        }
        let clear = case.key.and_then(|k| model::decode(b, Some(&k), model::Config::current()).ok()).and_then(|d| {
            (d.doc["security"]["decryption_state"] == "decrypted_unverified").then_some(d.area)?.map(|a| a.0)
        });
        let Some(clear) = clear else {
            if v["decrypted"] != false || shown != *b || listed != s || v.get("original").is_some() {
                return Err(bad("json", "rendering is not the annotation of the input".into()));
            }
            return Ok(());
        };
        // decrypted view
        let (at, len) = framed.payload().unwrap();
        let end = at + len;
        let mut want = framed.normalized[..end - clear.len()].to_vec();
        want.extend(&clear);
        if matches!(framed.link, Link::Wireless { .. }) {
            want[0] = (want.len() - 1) as u8;
        } else {
            let sum = gen::sum(&want[4..]);
            want.extend([sum, 0x16]);
        }
        match model::frame(&want) {
            Ok(x) if x.normalized == want && x.payload() == Some((at, len)) => {}
            // the plaintext happens to look like a checksum
            _ => return Ok(()),
        }
        obs.count("decrypted views");
        if v["decrypted"] != true {
            return Err(bad("json-decrypted", "payload was not decrypted".into()));
        }
        if shown != want {
            return Err(bad("json-decrypted-bytes", format!("shows {}, expected {}", hex(&shown), hex(&want))));
        }
        tile(&listed, shown.len(), "decrypted", b)?;
        let (l, said) = labels(&framed.link, &want, Some(&clear));
        roles(&listed, &l, &said, &want, "decrypted", b)?;
        if bytes(&v["original"]["bytes"]).as_ref() != Some(b) || segs(&v["original"]["segments"]).as_ref() != Some(&s) {
            return Err(bad("json-original", "original bytes or segments differ".into()));
        }
        obs.sample(|| format!("{h}: {} segments, decrypted view {} segments", s.len(), listed.len()));
        Ok(())
    }
}
