//! C26: round-trips of identifiers and enumerations. C29: fixed data structures.

use super::common::*;
use super::text::enriched_doc;
use super::xml;
use crate::engine::*;
use crate::gen;
use crate::model::{self, App};
use m_bus_core::{ConfigurationField, DeviceType, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::manufacturers::lookup_manufacturer;
use m_bus_parser::mbus_data::{serialize_mbus_data, MbusData};
use m_bus_parser::user_data::UserDataBlock;
use m_bus_parser::WiredFrame;
use serde_json::Value;

pub struct C26;

const CHUNK: u64 = 256;

impl C26 {
    fn ids(&self, from: u64, obs: &mut Obs) -> Verdict {
        for id in from..from + CHUNK {
            let id = id as u16;
            obs.eval();
            let want = model::mfr_letters(id);
            let got = guard("ManufacturerCode::from_id", || ManufacturerCode::from_id(id))?;
            match (&want, &got) {
                (None, Err(e)) => {
                    // a typed error that says something
                    if format!("{e}").trim().is_empty() {
                        return Err(Fail::new("mfr-error", format!("{id:04X}: error without message")));
                    }
                }
                (Some(w), Ok(c)) => {
                    obs.feature_hash(fnv(w.as_bytes()));
                    let back = c.to_id();
                    let (shown, letters): (String, String) = (c.to_string(), c.code.iter().collect());
                    if shown != *w || letters != *w || back != id {
                        return Err(Fail::new(
                            "mfr",
                            format!("{id:04X}: letters {letters}, shown {shown}, back {back:04X}, expected {w}"),
                        ));
                    }
                }
                _ => return Err(Fail::new("mfr-domain", format!("{id:04X}: got {got:?}, expected {want:?}"))),
            }
            let c = ConfigurationField::from_bytes(id as u8, (id >> 8) as u8);
            let m = (id >> 8) as u8 & 0x1F;
            let ok = c.raw() == id
                && u16::from(c) == id
                && ConfigurationField::from(id) == c
                && c.security_mode().to_bits() == m
                && c.security_mode() == SecurityMode::from_bits(m)
                && c.mode_specific_lower() == id as u8
                && c.mode_specific_upper() == (id >> 13) as u8;
            if !ok {
                return Err(Fail::new("configuration", format!("{id:04X}: configuration field {c:?} does not round-trip")));
            }
        }
        Ok(())
    }

    fn bytes(&self, obs: &mut Obs) -> Verdict {
        let mut seen = std::collections::BTreeSet::new();
        for b in 0..=255u8 {
            obs.eval();
            let d = DeviceType::from(b);
            if u8::from(d) != b {
                return Err(Fail::new("device", format!("{b:02X} becomes {d:?} and {:02X}", u8::from(d))));
            }
            let shown = d.to_string();
            if shown != model::device_name(b) {
                return Err(Fail::new("device-name", format!("{b:02X} is shown as {shown:?}, expected {:?}", model::device_name(b))));
            }
            if !seen.insert(format!("{d:?}")) {
                return Err(Fail::new("device-distinct", format!("{b:02X} shares {d:?}")));
            }
            obs.feature(&format!("device {b}"));
            // five mode bits, whatever surrounds them
            let m = SecurityMode::from_bits(b);
            if m.to_bits() != b & 0x1F || SecurityMode::from_bits(m.to_bits()) != m {
                return Err(Fail::new("mode", format!("{b:02X} becomes {m:?} and {:02X}", m.to_bits())));
            }
            if m.to_string() != model::mode_name(b & 0x1F) {
                return Err(Fail::new("mode-name", format!("{b:02X} is shown as {m}")));
            }
            obs.feature(&format!("mode {}", m.to_bits()));
        }
        Ok(())
    }

    fn bcd(&self, b: [u8; 4], obs: &mut Obs) -> Verdict {
        obs.eval();
        let want = model::bcd_id(&b);
        let raw = guard("bcd", || m_bus_core::bcd_hex_digits_to_u32(b))?;
        let id = guard("id", || IdentificationNumber::from_bcd_hex_digits(b))?;
        obs.feature(&format!("bcd {}", b.iter().fold(0u8, |a, x| a << 2 | u8::from(x >> 4 > 9) << 1 | u8::from(x & 15 > 9))));
        match want {
            None => {
                if raw.is_ok() || id.is_ok() {
                    return Err(Fail::new("bcd-accepts", format!("{}: accepted as {raw:?} {id:?}", hex(&b))));
                }
            }
            Some(w) => {
                let (Ok(r), Ok(i)) = (&raw, &id) else {
                    return Err(Fail::new("bcd-rejects", format!("{}: {raw:?} {id:?}", hex(&b))));
                };
                if *r != w || u32::from(*i) != w || i.to_string() != format!("{w:08}") || model::bcd_le(w) != b {
                    return Err(Fail::new("bcd-value", format!("{}: {r} {i}, expected {w:08}", hex(&b))));
                }
            }
        }
        Ok(())
    }

    /// The document's enrichment is the registry entry of the primary identity's code.
    fn enrichment(&self, case: &Case, obs: &mut Obs) -> Verdict {
        obs.eval();
        let Ok(with) = enriched_doc(&case.bytes, case.key, true)? else { return Ok(()) };
        let Ok(without) = enriched_doc(&case.bytes, case.key, false)? else {
            return Err(Fail::new("enrichment-outcome", format!("{}: decodes only with enrichment", hex(&case.bytes))));
        };
        if without.get("enrichment").is_some_and(|e| !e.is_null()) {
            return Err(Fail::new("enrichment-off", format!("{}: enrichment although switched off", hex(&case.bytes))));
        }
        let mut bare = with.clone();
        let e = bare.as_object_mut().and_then(|o| o.remove("enrichment")).unwrap_or(Value::Null);
        let mut other = without.clone();
        other.as_object_mut().map(|o| o.remove("enrichment"));
        if bare != other {
            return Err(Fail::new("enrichment-changes", format!("{}: enrichment changes the rest of the document", hex(&case.bytes))));
        }
        let code = with["meter"]["identity"]["manufacturer_code"].as_str();
        let info = code.and_then(lookup_manufacturer);
        let bad = |m: &str| Err(Fail::new("enrichment", format!("{}: {m}: {e}", hex(&case.bytes))));
        match (info, &e) {
            (None, Value::Null) => obs.feature("enrichment absent"),
            (Some(i), Value::Object(o)) => {
                obs.feature(&format!("enrichment {}", code.unwrap_or("")));
                if o["manufacturer_code"] != code.unwrap_or("")
                    || o["manufacturer_name"] != i.name
                    || o["manufacturer_website"] != i.website
                    || o["manufacturer_description"] != i.description
                    || !o["source"].as_str().is_some_and(|s| !s.is_empty())
                {
                    return bad("not the registry entry");
                }
            }
            (Some(_), _) => return bad("registered code without enrichment"),
            (None, _) => return bad("enrichment for an unregistered code"),
        }
        Ok(())
    }
}

impl Monitor for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "distinct manufacturer codes, device types, security modes, BCD error patterns and enrichment outcomes"
    }
    fn cases(&self, tier: Tier) -> u64 {
        257 + tier.pick(250_000, 600_000)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["manufacturer ids, configuration values, device types and security modes are enumerated completely; BCD patterns and telegrams are sampled", "the registry is what the public lookup function answers"]
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx < 256 {
            let mut c = Case::new("ids");
            c.nums = vec![(idx * CHUNK) as i64];
            return c;
        }
        if idx == 256 {
            return Case::new("bytes");
        }
        let k = idx - 257;
        match k % 4 {
            0 => {
                let mut b = gen::bcd_bytes(rng, 4);
                if k % 8 == 0 {
                    // one invalid digit, every position and value
                    let n = k / 8;
                    let (pos, val) = ((n % 8) as usize, 10 + (n / 8 % 6) as u8);
                    let x = &mut b[pos / 2];
                    *x = if pos % 2 == 0 { *x & 0xF0 | val } else { *x & 0x0F | val << 4 };
                } else if rng.chance(1, 4) {
                    b = rng.bytes(4);
                }
                Case::bytes("bcd", b)
            }
            1 => telegram(rng.u64(), rng),
            n => {
                // every code in both positions
                let code = (k / 4 * 2 + (n - 2)) % 17576;
                let id = ((code / 676 + 1) << 10 | (code / 26 % 26 + 1) << 5 | (code % 26 + 1)) as u16;
                let num = gen::bcd_bytes(rng, 4);
                let other = gen::gen_mfr(rng);
                if rng.chance(1, 2) {
                    let mut app = vec![0x72];
                    app.extend(num);
                    app.extend(id.to_le_bytes());
                    app.extend([rng.u8(), rng.u8(), 1, 0, 0, 0]);
                    if rng.chance(1, 2) {
                        Case::bytes("code-long", gen::wired(0x08, 1, &app))
                    } else {
                        let h = gen::wireless_header(0x44, other, [0x12, 0x34, 0x56, 0x78], 1, 7);
                        Case::bytes("code-long", gen::wireless_plain(&h, &app))
                    }
                } else {
                    let mut n = [0; 4];
                    n.copy_from_slice(&num);
                    let h = gen::wireless_header(0x44, id, n, rng.u8(), rng.u8());
                    Case::bytes("code-link", gen::wireless_plain(&h, &[0x7A, 1, 0, 0, 0, 0x01, 0x13, 0x05]))
                }
            }
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        match case.kind.as_str() {
            "ids" => self.ids(case.nums[0] as u64, obs),
            "bytes" => self.bytes(obs),
            "bcd" => self.bcd(case.bytes.clone().try_into().map_err(|_| Fail::new("harness-case", "four bytes"))?, obs),
            _ => {
                self.enrichment(case, obs)?;
                obs.sample(|| format!("{} {}", case.kind, hex(&case.bytes)));
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C29

pub struct C29;

impl Monitor for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "distinct (framing, outcome, type byte pair) and (status) combinations of fixed data telegrams"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the canonical document carries no counters: they are compared in the typed API, the legacy JSON and the XML", "the most-significant-byte-first variant (CI 77h) is read like 73h"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(140_000, 900_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut app = vec![if rng.chance(5, 6) { 0x73u8 } else { 0x77 }];
        app.extend(gen::bcd_bytes(rng, 4));
        app.push(rng.u8());
        app.push((idx / 3) as u8);
        app.extend([(idx / 5) as u8, if rng.chance(1, 2) { (idx / 5 >> 8) as u8 } else { rng.u8() }]);
        app.extend(gen::bcd_bytes(rng, 8));
        if rng.chance(1, 5) {
            // leading zeros
            for x in &mut app[10..13] {
                *x = 0;
            }
        }
        let mut kind = "valid";
        match rng.below(8) {
            0 => {
                // one invalid digit in the identification number or a counter
                let at = *rng.pick(&[1usize, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 16]);
                let v = 10 + rng.below(6) as u8;
                app[at] = if rng.chance(1, 2) { app[at] & 0xF0 | v } else { app[at] & 0x0F | v << 4 };
                kind = "digit";
            }
            1 => {
                app.truncate(1 + rng.usize(16));
                kind = "short";
            }
            2 => {
                let n = 1 + rng.usize(10);
                app.extend(rng.bytes(n));
                kind = "longer";
            }
            _ => {}
        }
        let b = match rng.below(5) {
            0 => gen::wireless_plain(&gen::gen_wireless_head(rng), &app),
            1 => gen::wireless_format_a(&gen::gen_wireless_head(rng), &app),
            _ => gen::wired(0x08, rng.u8(), &app),
        };
        Case::bytes(kind, b)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let h = hex(b);
        let bad = |s: &str, m: String| Fail::new(s, format!("{h}: {m}"));
        let Some(p) = both(case, obs)? else { return Ok(()) };
        // identity, access number, status and medium in the canonical document
        for k in ["meter", "transport", "decode_state", "diagnostics", "records"] {
            same(k, &p.want.doc[k], &p.got[k], case)?;
        }
        let (at, len) = p.want.framed.payload().ok_or_else(|| bad("harness-case", "no payload".into()))?;
        let app = &p.want.framed.normalized[at..at + len];
        let wired = matches!(p.want.framed.link, model::Link::Long { .. });
        let typed = guard("UserDataBlock", || UserDataBlock::try_from(app).map(|u| format!("{u:?}")).map_err(|e| format!("{e:?}")))?;
        let parsed = guard("UserDataBlock", || {
            UserDataBlock::try_from(app).ok().and_then(|u| match u {
                UserDataBlock::FixedDataStructure {
                    identification_number,
                    access_number,
                    status,
                    device_type_and_unit,
                    counter1,
                    counter2,
                } => Some((
                    identification_number.number,
                    access_number,
                    status.bits(),
                    device_type_and_unit,
                    [counter1.to_string(), counter2.to_string()],
                )),
                _ => None,
            })
        })?;
        let binary = app.len() >= 17 && app[6] & 1 == 1;
        match &p.want.app {
            Some((App::Fixed { id, access, status, type_unit, counters }, _)) => {
                obs.feature(&format!("{} {wired} {type_unit:04X}", case.kind));
                obs.feature(&format!("status {status:02X}"));
                let Some((i, a, s, t, c)) = parsed else {
                    return Err(bad("typed", format!("not a fixed data structure: {typed:?}")));
                };
                if (i, a, s, t) != (*id, *access, *status, *type_unit) {
                    return Err(bad("typed-fields", format!("reads {i} {a} {s:02X} {t:04X}")));
                }
                let shown = counters.map(|c| format!("{c:08}"));
                if c != shown {
                    return Err(bad("typed-counters", format!("reads {c:?}, expected {shown:?}")));
                }
                // legacy JSON
                let legacy = guard("json-legacy", || serialize_mbus_data(&h, "json-legacy", None))?;
                let v: Value = serde_json::from_str(&legacy).map_err(|e| bad("legacy-json", e.to_string()))?;
                let f = &v["user_data"]["FixedDataStructure"];
                if f["identification_number"]["number"] != *id
                    || f["access_number"] != *access
                    || f["device_type_and_unit"] != *type_unit
                    || f["counter1"]["count"] != counters[0]
                    || f["counter2"]["count"] != counters[1]
                {
                    return Err(bad("legacy-fields", format!("legacy JSON has {f}")));
                }
                // renderings of the canonical document
                for fmt in [Fmt::Csv, Fmt::Table, Fmt::Mermaid, Fmt::Yaml, Fmt::Json] {
                    let t = render(b, None, fmt, Some(120), true)?.map_err(|e| bad("render", e))?;
                    if !t.contains(&format!("{id:08}")) {
                        return Err(bad("render-id", format!("{} does not show {id:08}", fmt.as_str())));
                    }
                }
                xml::check(b, None)?;
                // counters are binary when the status says so
                if binary {
                    let want: Vec<i32> = [9, 13].iter().map(|&k| i32::from_le_bytes(app[k..k + 4].try_into().unwrap())).collect();
                    let got: Vec<i64> = c.iter().map(|x| x.parse().unwrap_or(-1)).collect();
                    if got.iter().zip(&want).any(|(g, w)| *g != i64::from(*w)) {
                        return Err(bad("binary-counter", format!("status announces binary counters {want:?}, read as {got:?}")));
                    }
                }
                obs.sample(|| format!("{h}: {id:08} {shown:?}"));
            }
            _ => {
                obs.feature(&format!("{} {wired} rejected", case.kind));
                if parsed.is_some() || typed.is_ok() {
                    return Err(bad("typed-accepts", format!("accepted as {typed:?}")));
                }
                if !diag_codes(&p.got).iter().any(|c| c == "application.partial") {
                    return Err(bad("diagnostic", "no application diagnostic".into()));
                }
                if wired {
                    let m = guard("MbusData", || MbusData::<WiredFrame>::try_from(&b[..]).map(|m| m.user_data.is_some()))?;
                    if m.unwrap_or(false) {
                        return Err(bad("typed-accepts", "user data although invalid".into()));
                    }
                }
                let digits_bad = app.len() >= 17 && model::bcd_id(&app[1..5]).is_some();
                if binary && digits_bad {
                    return Err(bad("binary-counter-rejected", "binary counters are rejected as invalid BCD".into()));
                }
            }
        }
        Ok(())
    }
}
