//! C13, C14: encrypted telegrams.

use super::common::*;
use crate::engine::*;
use crate::gen;
use crate::model::{self, App, Link};
use m_bus_application_layer as app;
use m_bus_core::decryption::{DecryptionError, EncryptedPayload, KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
use serde_json::Value;

pub struct C13;

/// Start of the opaque bytes in the normalised frame of a telegram that declares encryption.
fn opaque(d: &model::Decoded) -> Option<(usize, usize)> {
    if d.doc["security"]["payload_protection"] != "encrypted" {
        return None;
    }
    let (at, len) = d.framed.payload()?;
    let off = match &d.app.as_ref()?.0 {
        App::Long { at, .. } | App::Short { at, .. } | App::None { at } => *at,
        App::EllOnly => match d.framed.normalized[at] {
            0x8D => 9,
            _ => 17,
        },
        _ => return None,
    };
    Some((at + off, at + len))
}

fn scrub(mut d: Value) -> Value {
    d["raw"] = Value::Null;
    if let Some(o) = d["security"].as_object_mut() {
        o.remove("encrypted_payload_hex");
    }
    d
}

fn bad(sig: &str, case: &Case, m: impl std::fmt::Display) -> Verdict {
    Err(Fail::new(sig, format!("{}: {m}", hex(&case.bytes))))
}

/// Everything that a rendering without a key must and must not show.
fn without_key(case: &Case, d: &model::Decoded, obs: &mut Obs) -> Verdict {
    let b = &case.bytes;
    let payload = {
        let (at, len) = d.framed.payload().unwrap();
        hex(&d.framed.normalized[at..at + len])
    };
    for f in [Fmt::Json, Fmt::Yaml] {
        let Ok(s) = render(b, None, f, None, false)? else {
            return bad(&format!("{}:refused", f.as_str()), case, "telegram without key refused");
        };
        obs.eval();
        let v: Value = if f == Fmt::Json {
            serde_json::from_str(&s).map_err(|e| Fail::new("json:parse", e.to_string()))?
        } else {
            serde_yaml::from_str(&s).map_err(|e| Fail::new("yaml:parse", e.to_string()))?
        };
        let n = f.as_str();
        if v["records"].as_array().is_none_or(|a| !a.is_empty()) {
            return bad(&format!("{n}:records"), case, format!("records {}", v["records"]));
        }
        if v["security"]["payload_protection"] != "encrypted" || v["security"]["decryption_state"] != "key_missing" {
            return bad(&format!("{n}:state"), case, &v["security"]);
        }
        if v["security"]["encrypted_payload_hex"] != payload.as_str() {
            return bad(&format!("{n}:ciphertext"), case, format!("{} is not the transmitted payload", v["security"]["encrypted_payload_hex"]));
        }
        if !v["security"]["decrypted_payload_hex"].is_null() {
            return bad(&format!("{n}:decrypted"), case, &v["security"]);
        }
        if !diag_codes(&v).iter().any(|c| c == "security.key_missing") {
            return bad(&format!("{n}:diagnosis"), case, &v["diagnostics"]);
        }
        if v["decode_state"] != "partial" {
            return bad(&format!("{n}:complete"), case, &v["decode_state"]);
        }
    }
    // CSV
    if let Ok(s) = render(b, None, Fmt::Csv, None, false)? {
        obs.eval();
        let cells = csv_cells(&s).map_err(|e| Fail::new("csv:parse", e))?;
        let get = |n: &str| cells.iter().find(|c| c.0 == n).map(|c| c.1.as_str());
        if get("record_count") != Some("0") || cells.iter().any(|c| c.0.starts_with("record_0")) {
            return bad("csv:records", case, &s);
        }
        if !get("diagnostic_codes").unwrap_or("").split('|').any(|c| c == "security.key_missing") || get("decryption_state") != Some("key_missing") {
            return bad("csv:diagnosis", case, &s);
        }
    } else {
        return bad("csv:refused", case, "refused");
    }
    for w in [100, 120, 160] {
        let Ok(s) = render(b, None, Fmt::Table, Some(w), false)? else {
            return bad("table:refused", case, "refused");
        };
        obs.eval();
        // cells wrap at the column width, so compare without layout characters
        let flat: String = s.chars().filter(|c| !c.is_whitespace() && !"│┆╎".contains(*c)).collect();
        if !flat.contains("security.key_missing") {
            return bad("table:diagnosis", case, &s);
        }
    }
    let Ok(s) = render(b, None, Fmt::Mermaid, None, false)? else {
        return bad("mermaid:refused", case, "refused");
    };
    obs.eval();
    if !s.contains("security.key_missing") {
        return bad("mermaid:diagnosis", case, &s);
    }
    if s.lines().any(|l| l.trim_start().starts_with("R0[") || l.contains("RECORDS_SG")) {
        return bad("mermaid:records", case, &s);
    }
    // XML of wired telegrams keeps the libmbus byte stream, which knows no encryption
    let wired = matches!(d.framed.link, Link::Long { .. });
    if let (Ok(s), false) = (render(b, None, Fmt::Xml, None, false)?, wired) {
        obs.eval();
        if s.contains("<DataRecord") {
            return bad("xml:records", case, &s);
        }
    }
    if let Ok(s) = render(b, None, Fmt::Annotated, None, false)? {
        obs.eval();
        let v: Value = serde_json::from_str(&s).map_err(|e| Fail::new("annotated:parse", e.to_string()))?;
        let grouped = v["segments"].as_array().is_some_and(|a| a.iter().any(|g| !g["group"].is_null()));
        if grouped || v["decrypted"] == true {
            return bad("annotated:records", case, &s);
        }
    }
    Ok(())
}

/// Renderings must not depend on the content of bytes nobody can read.
fn unreadable(_case: &Case, d: &model::Decoded, obs: &mut Obs) -> Verdict {
    let Some((from, to)) = opaque(d) else { return Ok(()) };
    if to <= from {
        return Ok(());
    }
    let one = d.framed.normalized.clone();
    let mut rng = Rng::new(fnv(&one));
    let mut two = one.clone();
    // something that would decode as records
    let mut fill = vec![];
    while fill.len() < to - from {
        fill.extend(gen::gen_record(&mut rng, PLAIN));
    }
    two[from..to].copy_from_slice(&fill[..to - from]);
    if matches!(d.framed.link, Link::Long { .. }) {
        gen::refit(&mut two);
    } else if to + 2 == two.len() {
        let c = gen::crc16(&two[..to]).to_be_bytes();
        two[to..].copy_from_slice(&c);
    }
    let (Ok(a), Ok(b)) = (model_doc(&one, None), model_doc(&two, None)) else { return Ok(()) };
    if a.framed.link != b.framed.link || a.framed.normalized != one || b.framed.normalized != two || scrub(a.doc) != scrub(b.doc) {
        // a checksum matched by chance: not the same telegram any more
        obs.count("pair skipped");
        return Ok(());
    }
    for f in [Fmt::Table, Fmt::Mermaid, Fmt::Xml, Fmt::Json, Fmt::Csv, Fmt::Annotated] {
        if f == Fmt::Xml && matches!(d.framed.link, Link::Long { .. }) {
            continue;
        }
        let (x, y) = (render(&one, None, f, Some(100), true)?, render(&two, None, f, Some(100), true)?);
        obs.eval();
        let same = match (f, &x, &y) {
            (Fmt::Json, Ok(x), Ok(y)) => {
                let p = |s: &str| serde_json::from_str(s).map(scrub).unwrap_or_default();
                p(x) == p(y)
            }
            (Fmt::Csv, Ok(x), Ok(y)) => {
                let p = |s: &str| csv_cells(s).map(|c| c.into_iter().filter(|c| c.0 != "frame_hex").collect::<Vec<_>>());
                p(x) == p(y)
            }
            (Fmt::Annotated, Ok(x), Ok(y)) => {
                let p = |s: &str| -> Option<Vec<Value>> {
                    let v: Value = serde_json::from_str(s).ok()?;
                    Some(v["segments"].as_array()?.iter().filter(|g| g["start"].as_u64() < Some(to as u64)).cloned().collect())
                };
                p(x) == p(y)
            }
            _ => x == y,
        };
        if !same {
            return Err(Fail::new(
                format!("{}:leak", f.as_str()),
                format!("{} and {} differ only in unreadable bytes but render differently:\n{:?}\n{:?}", hex(&one), hex(&two), x, y),
            ));
        }
    }
    obs.count("pairs");
    Ok(())
}

impl Monitor for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "distinct (framing, header kind, security mode, opaque length, key use, outcome) tuples of observed telegrams"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(40_000, 400_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        match idx % 8 {
            0..=4 => {
                let s = gen::gen_secured(rng, PLAIN);
                let mut c = Case::bytes("secured", s.frame);
                c.key = Some(s.key);
                c
            }
            5 => {
                // encryption by the extended link layer
                let mut a = if rng.chance(1, 2) {
                    let mut a = vec![0x8D];
                    a.extend(rng.bytes(8));
                    a
                } else {
                    let mut a = vec![0x8E];
                    a.extend(rng.bytes(16));
                    a
                };
                let k = rng.usize(40);
                a.extend(if rng.chance(1, 2) { gen::gen_app(rng, 60, PLAIN) } else { rng.bytes(k) });
                let h = gen::gen_wireless_head(rng);
                let b = match rng.below(4) {
                    0 => gen::wired(8, 1, &a),
                    1 => gen::wireless_trailing(&h, &a),
                    2 => gen::wireless_format_a(&h, &a),
                    _ => gen::wireless_plain(&h, &a),
                };
                let mut c = Case::bytes("ell", b);
                c.key = Some(rng.arr());
                c
            }
            _ => {
                let mut c = telegram(rng.u64(), rng);
                c.key = Some(rng.arr());
                c
            }
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let none = Case::bytes(&case.kind, case.bytes.clone());
        let Some(p) = both(&none, obs)? else { return Ok(()) };
        for k in ["security", "records", "decode_state", "diagnostics"] {
            same(&format!("nokey:{k}"), &p.want.doc[k], &p.got[k], case)?;
        }
        let encrypted = p.want.doc["security"]["payload_protection"] == "encrypted";
        if encrypted {
            without_key(&none, &p.want, obs)?;
            unreadable(&none, &p.want, obs)?;
        }
        // typed record access
        if let (Some((at, len)), true) = (p.want.framed.payload(), encrypted) {
            let payload = &p.want.framed.normalized[at..at + len];
            let exposed = guard("data_records", || {
                app::parse_application_layer(payload).ok().map(|b| b.data_records().is_some())
            })?;
            obs.eval();
            if exposed == Some(true) {
                return bad("typed:records", case, "records exposed by the application layer of an encrypted telegram");
            }
        }
        // with a key
        let Some(q) = both(case, obs)? else {
            obs.feature(&format!("{} refused {}", case.kind, p.want.doc["security"]["mode_code"]));
            return Ok(());
        };
        for k in ["security", "records", "decode_state", "diagnostics"] {
            same(&format!("key:{k}"), &q.want.doc[k], &q.got[k], case)?;
        }
        if encrypted {
            if q.got["security"]["decryption_state"] != "decrypted_unverified" || !diag_codes(&q.got).iter().any(|c| c == "security.decrypted_unverified") {
                return bad("key:unmarked", case, &q.got["security"]);
            }
            // every rendering shows the marking
            for f in [Fmt::Table, Fmt::Mermaid, Fmt::Csv] {
                if let Ok(s) = render(&case.bytes, case.key, f, Some(200), false)? {
                    obs.eval();
                    let flat: String = s.chars().filter(|c| !c.is_whitespace() && !"│┆╎".contains(*c)).collect();
                    if !flat.contains("decrypted_unverified") {
                        return bad(&format!("{}:unmarked", f.as_str()), case, &s);
                    }
                    if flat.contains("security.key_missing") {
                        return bad(&format!("{}:false-missing", f.as_str()), case, &s);
                    }
                }
            }
        } else {
            // an unused key changes nothing but the two places that say so
            let clear = |d: &Value| {
                let mut d = d.clone();
                d["security"]["key_supplied"] = Value::Null;
                if let Some(a) = d["diagnostics"].as_array_mut() {
                    a.retain(|x| x["code"] != "security.key_unused");
                }
                d
            };
            if clear(&p.got) != clear(&q.got) {
                return bad("unused:changed", case, model::diff(&clear(&p.got), &clear(&q.got)).map_or(String::new(), |d| d.1));
            }
            let n = diag_codes(&q.got).iter().filter(|c| *c == "security.key_unused").count();
            if n != 1 || diag_codes(&p.got).iter().any(|c| c == "security.key_unused") || q.got["security"]["key_supplied"] != true {
                return bad("unused:unreported", case, &q.got["diagnostics"]);
            }
            if let (Ok(x), Ok(y)) = (render(&case.bytes, None, Fmt::Xml, None, false)?, render(&case.bytes, case.key, Fmt::Xml, None, false)?) {
                obs.eval();
                if x != y {
                    return bad("unused:xml", case, "XML changed by an unused key");
                }
            }
        }
        obs.feature(&format!(
            "{} {} {} {:?} {} {}",
            p.got["frame"]["kind"],
            p.want.framed.normalized.len() != case.bytes.len(),
            p.want.doc["security"]["mode_code"],
            opaque(&p.want).map(|o| o.1 - o.0),
            q.got["decode_state"],
            q.got["records"].as_array().map_or(0, Vec::len),
        ));
        obs.count(if encrypted { "encrypted" } else { "cleartext" });
        obs.sample(|| format!("{} {} -> {} / {}", case.kind, hex(&case.bytes), p.got["security"]["decryption_state"], q.got["security"]["decryption_state"]));
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

pub struct C14;

struct Fixed(Vec<u8>);
impl KeyProvider for Fixed {
    fn get_key(&self, _c: &KeyContext) -> Result<&[u8], DecryptionError> {
        Ok(&self.0)
    }
}

struct Spy(Vec<u8>, std::cell::RefCell<Vec<KeyContext>>);
impl KeyProvider for Spy {
    fn get_key(&self, c: &KeyContext) -> Result<&[u8], DecryptionError> {
        self.1.borrow_mut().push(c.clone());
        Ok(&self.0)
    }
}

const CANARY: u8 = 0xA7;

/// Runs a decryption into a guarded buffer of the given size.
fn into_buffer(size: usize, f: impl Fn(&mut [u8]) -> Result<usize, DecryptionError>) -> Result<(Result<usize, DecryptionError>, Vec<u8>), Fail> {
    let mut big = vec![CANARY; size + 64];
    let r = guard("decrypt", || {
        let (_, rest) = big.split_at_mut(32);
        f(&mut rest[..size])
    })?;
    if big[..32].iter().chain(&big[32 + size..]).any(|b| *b != CANARY) {
        return Err(Fail::new("overrun", "bytes outside the output buffer changed".to_string()));
    }
    Ok((r, big[32..32 + size].to_vec()))
}

impl Monitor for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "distinct (mode, framing, control information, plaintext length, identity digest) tuples of recovered telegrams and (mode, data length, buffer length, outcome) tuples of low-level decryptions"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the reference AES-128-CBC in harness/src/model/aes.rs is checked against FIPS-197 and SP 800-38A vectors at start"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(350_000, 2_000_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx % 2 == 0 {
            let mode = if idx % 4 == 0 { 5 } else { *rng.pick(&[5i64, 7]) };
            let mut plain = gen::gen_records(rng, 180, PLAIN);
            if rng.chance(1, 3) {
                plain.splice(0..0, [0x2F, 0x2F]);
            }
            if plain.is_empty() {
                plain.push(0x2F);
            }
            let n = if idx < 2_000 { 1 + (idx as usize / 2) % 232 } else { plain.len() };
            plain.resize(n, 0x2F);
            let mut c = Case::bytes("telegram", plain);
            c.key = Some(if rng.chance(1, 10) { [0; 16] } else { rng.arr() });
            c.nums = vec![mode, rng.u64() as i64];
            c
        } else {
            let n = match rng.below(16) {
                0 | 1 => 0,
                2 => 1 + rng.usize(1_000),
                3 => 16 * rng.usize(70),
                _ => 1 + rng.usize(80),
            };
            let mut c = Case::bytes("low", rng.bytes(n));
            c.key = Some(rng.arr());
            c.nums = vec![rng.below(32) as i64, rng.u64() as i64];
            if rng.chance(1, 2) {
                c.nums[0] = *rng.pick(&[5, 7]);
            }
            c
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let key = case.key.unwrap();
        let mut rng = Rng::new(case.nums[1] as u64);
        let mode = case.nums[0] as u8;
        if case.kind == "telegram" {
            return telegram_round(case, key, mode, &mut rng, obs);
        }
        low_level(case, key, mode, &mut rng, obs)
    }
}

fn records_of(b: &[u8], key: Option<[u8; 16]>) -> Result<Result<Value, String>, Fail> {
    real_doc(b, key)
}

fn telegram_round(case: &Case, key: [u8; 16], mode: u8, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let plain = &case.bytes;
    let cfg_low = rng.u64() as u16 & 0xE0FF;
    let kind = rng.below(3);
    let head = gen::gen_wireless_head(rng);
    let h = gen::long_header(rng, 0);
    let s = gen::short_header(rng, 0);
    let wired_addr = rng.u8();
    let framing = rng.below(3);
    // the header in front of the payload, in every form that can be encrypted
    let lead: Vec<u8> = match (kind < 2, rng.below(6)) {
        (true, 0) => vec![0x76],
        (true, _) => vec![0x72],
        (false, 0) => vec![0xA0, rng.u8()],
        (false, 1) => vec![0xA1 + rng.below(15) as u8],
        (false, 2) => vec![0x8C, rng.u8(), rng.u8(), 0x7A],
        (false, 3) if rng.chance(1, 2) => vec![0x8C, rng.u8(), rng.u8(), 0xA0, rng.u8()],
        (false, _) => vec![0x7A],
    };
    let build = |cfg: u16, body: &[u8]| -> Vec<u8> {
        let mut a = lead.clone();
        if kind < 2 {
            a.extend(&h[..10]);
        } else {
            a.extend(&s[..2]);
        }
        a.extend(cfg.to_le_bytes());
        a.extend(body);
        match (kind, framing) {
            (0, _) => gen::wired(8, wired_addr, &a),
            (_, 0) => gen::wireless_plain(&head, &a),
            (_, 1) => gen::wireless_trailing(&head, &a),
            _ => gen::wireless_format_a(&head, &a),
        }
    };
    let iv = match (mode, kind) {
        (7, _) => [0; 16],
        // manufacturer, identification, version, device as transmitted, access number eight times
        (_, 0 | 1) => {
            let mut iv = [h[8]; 16];
            iv[..2].copy_from_slice(&h[4..6]);
            iv[2..6].copy_from_slice(&h[..4]);
            if lead[0] == 0x76 {
                // the number itself, however it is transmitted
                iv[2..6].reverse();
            }
            iv[6] = h[6];
            iv[7] = h[7];
            iv
        }
        _ => {
            let mut iv = [s[0]; 16];
            iv[..8].copy_from_slice(&head[2..10]);
            if lead[0] & 0xF0 == 0xA0 {
                // these frames carry the device type in the upper half of the byte
                iv[7] >>= 4;
            }
            iv
        }
    };
    let cipher = model::aes::cbc_encrypt(&key, iv, plain);
    let secured = build(cfg_low | u16::from(mode) << 8, &cipher);
    let clear = build(cfg_low, plain);
    // a chance checksum match makes either frame something else
    let as_built = |f: &[u8], body: &[u8]| {
        let want = body.len() + lead.len() + if kind < 2 { 12 } else { 4 };
        model::frame(f).is_ok_and(|m| {
            m.payload()
                .is_some_and(|(at, len)| len == want && m.normalized[at..].starts_with(&lead) && m.normalized[at..at + len].ends_with(body))
        })
    };
    if !as_built(&secured, &cipher) || !as_built(&clear, plain) {
        obs.count("skipped");
        return Ok(());
    }
    let a = records_of(&secured, Some(key))?;
    let b = records_of(&clear, None)?;
    obs.eval();
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            return Err(Fail::new(
                "refused",
                format!("{} with key {}: {:?}; cleartext {}: {:?}", hex(&secured), hex(&key), a.err(), hex(&clear), b.err()),
            ))
        }
    };
    if a["security"]["decrypted_payload_hex"].as_str() != Some(&hex(plain)) {
        return Err(Fail::new(
            "plaintext",
            format!("{} with key {} gives {}, encrypted was {}", hex(&secured), hex(&key), a["security"]["decrypted_payload_hex"], hex(plain)),
        ));
    }
    if a["records"] != b["records"] {
        return Err(Fail::new(
            "records",
            format!("{} with key {} gives different records than {}", hex(&secured), hex(&key), hex(&clear)),
        ));
    }
    let part = |d: &Value| diag_codes(d).iter().any(|c| c == "application.record_partial");
    if part(&a) != part(&b) || a["decode_state"] != b["decode_state"] {
        return Err(Fail::new("state", format!("{}: {} against {}", hex(&secured), a["decode_state"], b["decode_state"])));
    }
    // XML and the other renderings show the same readings
    if rng.chance(1, 4) {
        let x = |s: Result<String, String>| s.map(|s| s.split_once("<DataRecord").map_or(String::new(), |t| t.1.to_string()));
        let xa = x(render(&secured, Some(key), Fmt::Xml, None, false)?);
        let xb = x(render(&clear, None, Fmt::Xml, None, false)?);
        obs.eval();
        if xa != xb {
            return Err(Fail::new("xml", format!("{} with key {}: XML records differ from {}", hex(&secured), hex(&key), hex(&clear))));
        }
    }
    // a wrong key gives something else (the first block cannot match)
    if plain.len() >= 16 {
        let mut other = key;
        other[rng.usize(16)] ^= 1 << rng.below(8);
        if let Ok(o) = records_of(&secured, Some(other))? {
            obs.eval();
            if o["security"]["decrypted_payload_hex"] == a["security"]["decrypted_payload_hex"] {
                return Err(Fail::new("key-ignored", format!("{}: keys {} and {} give the same plaintext", hex(&secured), hex(&key), hex(&other))));
            }
        }
    }
    obs.count("telegrams recovered");
    obs.count(&format!("header {:02X}", lead[0]));
    obs.feature(&format!("{mode} {kind} {framing} {:02X} {} {}", lead[0], plain.len(), hex(&iv)));
    obs.sample(|| format!("{} key {} -> {}", hex(&secured), hex(&key), hex(plain)));
    Ok(())
}

fn low_level(case: &Case, key: [u8; 16], mode: u8, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let data = &case.bytes;
    let id = model::bcd_id(&gen::bcd_bytes(rng, 4)).unwrap();
    let mfr_id = gen::gen_mfr(rng);
    let Ok(mfr) = guard("from_id", || ManufacturerCode::from_id(mfr_id))? else {
        return Ok(());
    };
    let (version, device, access) = (rng.u8(), rng.u8(), rng.u8());
    let ctx = KeyContext {
        manufacturer: mfr,
        identification_number: id,
        version,
        device_type: DeviceType::from(device),
        security_mode: SecurityMode::from_bits(mode),
        access_number: access,
    };
    let iv = match mode {
        5 => model::iv5(mfr_id, id, version, device, access),
        _ => [0; 16],
    };
    let expected: Result<Vec<u8>, DecryptionError> = match mode {
        0 => Ok(data.clone()),
        5 | 7 if data.is_empty() => Err(DecryptionError::InvalidDataLength),
        5 | 7 => Ok(model::aes::cbc_decrypt(&key, iv, data)),
        _ => Err(DecryptionError::UnsupportedMode(SecurityMode::from_bits(mode))),
    };
    let show = |what: &str| format!("{what}: mode {mode} key {} iv {} data {}", hex(&key), hex(&iv), hex(data));
    // every interesting output size
    let n = data.len();
    let mut sizes = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1, n + 16, n / 16 * 16, (n / 16 + 1) * 16];
    sizes.dedup();
    for size in sizes {
        let (r, buf) = into_buffer(size, |out| EncryptedPayload::new(data, ctx.clone()).decrypt_into(&Fixed(key.to_vec()), out))?;
        obs.eval();
        match (&expected, r) {
            (Ok(p), Ok(len)) => {
                if size < p.len() || len != p.len() || buf[..len] != p[..] {
                    return Err(Fail::new("low:plaintext", format!("{} into {size} bytes gave {len} bytes {}", show("decrypt_into"), hex(&buf[..len.min(size)]))));
                }
                if buf[len..].iter().any(|b| *b != CANARY) {
                    return Err(Fail::new("low:beyond-result", show("bytes after the result changed")));
                }
                obs.count("plaintext recovered");
            }
            (Ok(p), Err(e)) => {
                if size >= p.len() {
                    return Err(Fail::new("low:refused", format!("{} into {size} bytes: {e:?}", show("decrypt_into"))));
                }
                if e != DecryptionError::InvalidDataLength {
                    return Err(Fail::new("low:short-buffer", format!("{} into {size} bytes: {e:?}", show("decrypt_into"))));
                }
                obs.count("short buffer refused");
            }
            (Err(w), Err(g)) => {
                if *w != g {
                    return Err(Fail::new("low:error", format!("{}: expected {w:?}, got {g:?}", show("decrypt_into"))));
                }
                if buf.iter().any(|b| *b != CANARY) {
                    return Err(Fail::new("low:written", show("output written although refused")));
                }
            }
            (Err(w), Ok(_)) => {
                return Err(Fail::new("low:accepted", format!("{}: expected {w:?}", show("decrypt_into"))));
            }
        }
        obs.feature(&format!("{mode} {n} {size} {}", expected.is_ok()));
    }
    // keys of the wrong length
    if matches!(mode, 5 | 7) && n > 0 {
        let k = *rng.pick(&[0usize, 1, 8, 15, 17, 24, 32]);
        let (r, buf) = into_buffer(n + 16, |out| EncryptedPayload::new(data, ctx.clone()).decrypt_into(&Fixed(vec![1; k]), out))?;
        obs.eval();
        if r != Err(DecryptionError::InvalidKeyLength) || buf.iter().any(|b| *b != CANARY) {
            return Err(Fail::new("low:key-length", format!("{} byte key: {r:?}", k)));
        }
    }
    // key store: exactly the keyed meters are found
    let mut store: StaticKeyProvider<4> = StaticKeyProvider::new();
    let mut have: Vec<(u16, u32, [u8; 16])> = vec![];
    for i in 0..6 {
        let bit = |rng: &mut Rng| 1u32 << rng.below(27);
        let (m, d) = match rng.below(9) {
            0 => (mfr_id, id.wrapping_add(1) % 100_000_000),
            1 => (if mfr_id == 0x0421 { 0x0422 } else { 0x0421 }, id),
            2..=3 => (mfr_id, id),
            // meters that only a part of the two numbers tells apart
            4 => (mfr_id ^ 1 << rng.below(16), id),
            5 => (mfr_id, id ^ bit(rng)),
            6 => (mfr_id ^ 1 << rng.below(15), id ^ bit(rng)),
            7 => *rng.pick(&[
                (mfr_id.swap_bytes(), id),
                (mfr_id, id.swap_bytes()),
                (id as u16, u32::from(mfr_id)),
                (mfr_id, id % 1_000_000),
                (mfr_id, id % 10_000),
                (mfr_id, id + 100_000_000),
                (mfr_id, u32::from_le_bytes(model::bcd_le(id))),
                (0, id),
                (mfr_id, 0),
            ]),
            _ => (gen::gen_mfr(rng), rng.below(100_000_000) as u32),
        };
        let k: [u8; 16] = rng.arr();
        let r = guard("add_key", || store.add_key(m, d, k))?;
        obs.eval();
        let want = if i < 4 { Ok(()) } else { Err(DecryptionError::InvalidDataLength) };
        if r != want {
            return Err(Fail::new("store:capacity", format!("key {i} of a store for 4: {r:?}")));
        }
        if r.is_ok() {
            have.push((m, d, k));
        }
    }
    let got = guard("get_key", || store.get_key(&ctx).map(<[u8]>::to_vec))?;
    let want = have.iter().find(|e| e.0 == mfr_id && e.1 == id).map(|e| e.2.to_vec()).ok_or(DecryptionError::KeyNotFound);
    if got != want {
        return Err(Fail::new("store:lookup", format!("meter {mfr_id:04X}/{id} in {have:02X?}: expected {want:02X?}, got {got:02X?}")));
    }
    let (r, buf) = into_buffer(n + 16, |out| EncryptedPayload::new(data, ctx.clone()).decrypt_into(&store, out))?;
    obs.eval();
    if want.is_err() && (r != Err(DecryptionError::KeyNotFound) || buf.iter().any(|b| *b != CANARY)) {
        return Err(Fail::new("store:unknown-meter", format!("{}: {r:?}", show("unknown meter"))));
    }
    // through the transport header: the context handed to the key provider names the meter
    for long in [true, false] {
        let mut a = vec![];
        let mut idb = model::bcd_le(id).to_vec();
        if long {
            let msb = rng.chance(1, 4);
            a.push(if msb { 0x76 } else { 0x72 });
            if msb {
                idb.reverse();
            }
            a.extend(&idb);
            a.extend(mfr_id.to_le_bytes());
            a.extend([version, device]);
        } else {
            a.push(0x7A);
        }
        a.extend([access, rng.u8(), rng.u8(), mode | rng.u8() & 0xE0]);
        a.extend(data);
        let spy = Spy(key.to_vec(), Default::default());
        let Ok(Ok(block)) = guard("parse", || app::parse_application_layer(&a).map_err(|_| ())) else {
            return Err(Fail::new("typed:parse", format!("{} does not parse", hex(&a))));
        };
        let (r, buf) = into_buffer(n, |out| {
            if long {
                block.decrypt_variable_data(&spy, out)
            } else {
                block.decrypt_variable_data_with_context(&spy, mfr, id, version, DeviceType::from(device), out)
            }
        })?;
        obs.eval();
        let want = match (&expected, mode) {
            (_, 0) => Err(DecryptionError::NotEncrypted),
            (Ok(p), _) => Ok(p.len()),
            (Err(e), _) => Err(*e),
        };
        if r != want || r.is_ok() && Some(&buf) != expected.as_ref().ok() {
            return Err(Fail::new(
                if long { "typed:long" } else { "typed:short" },
                format!("{}: expected {want:?}, got {r:?} {}", hex(&a), hex(&buf)),
            ));
        }
        if spy.1.borrow().iter().any(|c| *c != ctx) {
            return Err(Fail::new("typed:context", format!("{}: expected {ctx:?}, got {:?}", hex(&a), spy.1.borrow())));
        }
        // the short header alone does not name a meter
        if !long {
            let (r, _) = into_buffer(n, |out| block.decrypt_variable_data(&spy, out))?;
            let want = if mode == 0 { DecryptionError::NotEncrypted } else { DecryptionError::UnknownEncryptionState };
            obs.eval();
            if r != Err(want) {
                return Err(Fail::new("typed:short-alone", format!("{}: {r:?}", hex(&a))));
            }
        }
    }
    obs.sample(|| show("decrypted"));
    Ok(())
}
