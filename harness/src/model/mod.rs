//! Independent reference model: bytes and options to the canonical document.

pub mod aes;
pub mod record;
pub mod vif;

use crate::gen::crc16;
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub plain_before: bool,
    pub decryption: bool,
}

impl Config {
    pub fn current() -> Self {
        Self {
            plain_before: cfg!(feature = "plaintext"),
            decryption: cfg!(feature = "decryption"),
        }
    }
}

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}

/// Letters of a manufacturer identifier.
pub fn mfr_letters(id: u16) -> Option<String> {
    let parts = [id / 1024, (id % 1024) / 32, id % 32];
    parts
        .iter()
        .map(|p| if (1..=26).contains(p) { Some((b'A' + *p as u8 - 1) as char) } else { None })
        .collect()
}

/// Eight BCD digits, least significant byte first.
pub fn bcd_id(b: &[u8]) -> Option<u32> {
    let mut v = 0;
    for x in b.iter().rev() {
        if x >> 4 > 9 || x & 15 > 9 {
            return None;
        }
        v = v * 100 + u32::from(x >> 4) * 10 + u32::from(x & 15);
    }
    Some(v)
}

pub fn bcd_le(mut n: u32) -> [u8; 4] {
    let mut o = [0; 4];
    for x in o.iter_mut() {
        let two = n % 100;
        n /= 100;
        *x = ((two / 10) << 4 | (two % 10)) as u8;
    }
    o
}

pub fn device_name(c: u8) -> String {
    let fixed = match c {
        0x00 => "Other",
        0x01 => "Oil Meter",
        0x02 => "Electricity Meter",
        0x03 => "Gas Meter",
        0x04 => "Heat Meter (Return)",
        0x05 => "Steam Meter",
        0x06 => "Warm Water Meter (30-90°C)",
        0x07 => "Water Meter",
        0x08 => "Heat Cost Allocator",
        0x09 => "Compressed Air",
        0x0A => "Cooling Meter (Return)",
        0x0B => "Cooling Meter (Flow)",
        0x0C => "Heat Meter (Flow)",
        0x0D => "Combined Heat/Cooling Meter",
        0x0E => "Bus/System Component",
        0x0F => "Unknown Device",
        0x10 => "Irrigation Water Meter",
        0x11 => "Water Data Logger",
        0x12 => "Gas Data Logger",
        0x13 => "Gas Converter",
        0x14 => "Calorific Value",
        0x15 => "Hot Water Meter (≥90°C)",
        0x16 => "Cold Water Meter",
        0x17 => "Dual Register Water Meter",
        0x18 => "Pressure Meter",
        0x19 => "A/D Converter",
        0x1A => "Smoke Detector",
        0x1B => "Room Sensor",
        0x1C => "Gas Detector",
        0x1D..=0x1F => return format!("Reserved Sensor (0x{c:02X})"),
        0x20 => "Breaker (Electricity)",
        0x21 => "Valve (Gas/Water)",
        0x22..=0x24 => return format!("Reserved Switch (0x{c:02X})"),
        0x25 => "Customer Unit (Display)",
        0x26..=0x27 => return format!("Reserved Customer Unit (0x{c:02X})"),
        0x28 => "Waste Water Meter",
        0x29 => "Garbage",
        0x2A => "Reserved (CO₂)",
        0x2B..=0x2F => return format!("Reserved Environmental (0x{c:02X})"),
        0x30 => "Service Tool",
        0x31 => "Communication Controller (Gateway)",
        0x32 => "Unidirectional Repeater",
        0x33 => "Bidirectional Repeater",
        0x36 => "Radio Converter (System Side)",
        0x37 => "Radio Converter (Meter Side)",
        0x38 => "Bus Converter (Meter Side)",
        0x34..=0x3F => return format!("Reserved System (0x{c:02X})"),
        0x40..=0xFE => return format!("Reserved (0x{c:02X})"),
        0xFF => "Wildcard",
    };
    fixed.into()
}

pub fn status_name(s: u8) -> String {
    let names = [
        "Counter binary signed",
        "Counter fixed date",
        "Power low",
        "Permanent error",
        "Temporary error",
        "Manufacturer specific 1",
        "Manufacturer specific 2",
        "Manufacturer specific 3",
    ];
    let v: Vec<&str> = (0..8).filter(|i| s >> i & 1 == 1).map(|i| names[i]).collect();
    if v.is_empty() {
        "No Error(s)".into()
    } else {
        v.join(", ")
    }
}

pub fn mode_name(m: u8) -> String {
    match m {
        0 => "No encryption used",
        1 => "Manufacturer specific usage",
        2 => "DES; IV = 0 (deprecated)",
        3 => "DES; IV ≠ 0 (deprecated)",
        4 => "Specific usage (Bibliographical Entry [6])",
        5 => "AES-CBC-128; IV ≠ 0",
        7 => "AES-CBC-128; IV = 0",
        8 => "AES-CTR-128; CMAC",
        9 => "AES-GCM-128",
        10 => "AES-CCM-128",
        13 => "Specific usage (Bibliographical Entry [8])",
        15 => "Specific usage (Bibliographical Entry [7])",
        6 | 11 | 12 | 14 => "Reserved for future use",
        _ => return format!("Reserved for future use (mode {m})"),
    }
    .into()
}

pub fn function_name(c: u8) -> Option<&'static str> {
    Some(match c {
        0x40 => "SND_NKE (PRM: false)",
        0x44 => "SND_NR",
        0x53 => "SND_UD (FCB: false)",
        0x73 => "SND_UD (FCB: true)",
        0x5B => "REQ_UD2 (FCB: false)",
        0x7B => "REQ_UD2 (FCB: true)",
        0x5A => "REQ_UD1 (FCB: false)",
        0x7A => "REQ_UD1 (FCB: true)",
        0x08 => "RSP_UD (ACD: false, DFC: false)",
        0x18 => "RSP_UD (ACD: false, DFC: true)",
        0x28 => "RSP_UD (ACD: true, DFC: false)",
        0x38 => "RSP_UD (ACD: true, DFC: true)",
        _ => return None,
    })
}

pub fn address_name(a: u8) -> String {
    match a {
        0 => "Uninitalized".into(),
        253 => "Secondary".into(),
        254 => "Broadcast (Reply Required: true)".into(),
        255 => "Broadcast (Reply Required: false)".into(),
        n => format!("Primary ({n})"),
    }
}

/// Link identity of a wireless frame.
#[derive(Clone, Debug, PartialEq)]
pub struct LinkId {
    pub mfr: u16,
    pub id: u32,
    pub version: u8,
    pub device: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Link {
    Single,
    Short { control: u8, address: u8 },
    Control { control: u8, address: u8, at: usize, len: usize },
    Long { control: u8, address: u8, at: usize, len: usize },
    Wireless { control: u8, id: LinkId, at: usize, len: usize },
}

/// Well formed wired frame, or nothing.
pub fn wired(d: &[u8]) -> Option<Link> {
    let n = d.len();
    match *d.first()? {
        0xE5 if n == 1 => Some(Link::Single),
        0x10 => {
            (n == 5 && d[4] == 0x16 && d[1].wrapping_add(d[2]) == d[3]).then_some(())?;
            function_name(d[1])?;
            Some(Link::Short {
                control: d[1],
                address: d[2],
            })
        }
        0x68 => {
            (n >= 8).then_some(())?;
            let l = usize::from(d[1]);
            let sum = d[4..n - 2].iter().fold(0u8, |a, b| a.wrapping_add(*b));
            (d[2] == d[1] && n == l + 6 && d[3] == 0x68 && d[n - 1] == 0x16 && d[n - 2] == sum).then_some(())?;
            function_name(d[4])?;
            let (control, address, at, len) = (d[4], d[5], 6, n - 8);
            Some(if control == 0x53 {
                Link::Control { control, address, at, len }
            } else {
                Link::Long { control, address, at, len }
            })
        }
        _ => None,
    }
}

/// Longest-match removal of Format A block checksums.
pub fn strip_format_a(d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 12 || d.len() > 512 || crc16(&d[..10]) != u16::from_be_bytes([d[10], d[11]]) {
        return None;
    }
    let mut out = d[..10].to_vec();
    let mut at = 12;
    while at < d.len() {
        let left = d.len() - at;
        if left < 3 {
            out.extend_from_slice(&d[at..]);
            break;
        }
        let hit = (1..=16.min(left - 2))
            .rev()
            .find(|n| crc16(&d[at..at + n]) == u16::from_be_bytes([d[at + n], d[at + n + 1]]));
        match hit {
            Some(n) => {
                out.extend_from_slice(&d[at..at + n]);
                at += n + 2;
            }
            None => {
                out.extend_from_slice(&d[at..]);
                break;
            }
        }
    }
    out[0] = (out.len() - 1) as u8;
    Some(out)
}

pub fn wireless(d: &[u8]) -> Option<Link> {
    let n = d.len();
    if n < 11 || usize::from(d[0]) + 1 != n {
        return None;
    }
    let mfr = u16::from_le_bytes([d[2], d[3]]);
    mfr_letters(mfr)?;
    let id = bcd_id(&d[4..8])?;
    let device = if d[10] & 0xF0 == 0xA0 { d[9] >> 4 } else { d[9] };
    let mut end = n;
    if n >= 12 && crc16(&d[..n - 2]) == u16::from_be_bytes([d[n - 2], d[n - 1]]) {
        end = n - 2;
    }
    Some(Link::Wireless {
        control: d[1],
        id: LinkId {
            mfr,
            id,
            version: d[8],
            device,
        },
        at: 10,
        len: end - 10,
    })
}

/// Transport layer content, with offsets into the payload.
#[derive(Clone, Debug, PartialEq)]
pub enum App {
    Reset,
    Fixed { id: u32, access: u8, status: u8, type_unit: u16, counters: [u32; 2] },
    Long { id: u32, mfr: u16, version: u8, device: u8, access: u8, status: u8, cfg: u16, at: usize, msb_first: bool },
    Short { access: u8, status: u8, cfg: u16, at: usize },
    None { at: usize },
    /// Encrypted remainder of an ELL II / III.
    EllOnly,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ell {
    pub cc: u8,
    pub access: u8,
    pub receiver: Option<(u16, Vec<u8>)>,
    pub session: Option<(Vec<u8>, u16)>,
}

/// `None` is an application layer error.
pub fn application(p: &[u8]) -> Option<(App, Option<Ell>)> {
    let le = |i: usize| u16::from_le_bytes([p[i], p[i + 1]]);
    match *p.first()? {
        0x8C => {
            let ell = Ell {
                cc: *p.get(1)?,
                access: *p.get(2)?,
                receiver: None,
                session: None,
            };
            let inner = *p.get(3)?;
            if inner == 0x78 || inner == 0x7A || inner & 0xF0 == 0xA0 {
                let (app, _) = application(&p[3..])?;
                let app = match app {
                    App::Short { access, status, cfg, at } => App::Short {
                        access,
                        status,
                        cfg,
                        at: at + 3,
                    },
                    App::None { at } => App::None { at: at + 3 },
                    _ => return None,
                };
                Some((app, Some(ell)))
            } else {
                None
            }
        }
        0x8D => (p.len() >= 9).then(|| {
            (
                App::EllOnly,
                Some(Ell {
                    cc: p[1],
                    access: p[2],
                    receiver: None,
                    session: Some((p[3..7].to_vec(), le(7))),
                }),
            )
        }),
        0x8E => (p.len() >= 17).then(|| {
            (
                App::EllOnly,
                Some(Ell {
                    cc: p[1],
                    access: p[2],
                    receiver: Some((le(3), p[5..11].to_vec())),
                    session: Some((p[11..15].to_vec(), le(15))),
                }),
            )
        }),
        0x50 => (p.len() >= 2).then_some((App::Reset, None)),
        ci @ (0x72 | 0x76) => {
            (p.len() >= 13).then_some(())?;
            let mut idb = [p[1], p[2], p[3], p[4]];
            if ci == 0x76 {
                idb.reverse();
            }
            Some((
                App::Long {
                    id: bcd_id(&idb)?,
                    mfr: le(5),
                    version: p[7],
                    device: p[8],
                    access: p[9],
                    status: p[10],
                    cfg: le(11),
                    at: 13,
                    msb_first: ci == 0x76,
                },
                None,
            ))
        }
        0x73 | 0x77 => {
            (p.len() >= 17).then_some(())?;
            Some((
                App::Fixed {
                    id: bcd_id(&p[1..5])?,
                    access: p[5],
                    status: p[6],
                    type_unit: u16::from_be_bytes([p[7], p[8]]),
                    counters: [bcd_id(&p[9..13])?, bcd_id(&p[13..17])?],
                },
                None,
            ))
        }
        0x78 => Some((App::None { at: 1 }, None)),
        ci if ci == 0x7A || ci & 0xF0 == 0xA0 => {
            let b = if ci == 0xA0 { 2 } else { 1 };
            (p.len() >= b + 4).then_some(())?;
            Some((
                App::Short {
                    access: p[b],
                    status: p[b + 1],
                    cfg: le(b + 2),
                    at: b + 4,
                },
                None,
            ))
        }
        _ => None,
    }
}

/// Result of the lower layers.
#[derive(Clone, Debug, PartialEq)]
pub struct Framed {
    pub link: Link,
    pub normalized: Vec<u8>,
}

pub fn frame(d: &[u8]) -> Result<Framed, &'static str> {
    if d.is_empty() {
        return Err("input.empty");
    }
    if let Some(link) = wired(d) {
        return Ok(Framed {
            link,
            normalized: d.to_vec(),
        });
    }
    let normalized = strip_format_a(d).unwrap_or_else(|| d.to_vec());
    match wireless(&normalized) {
        Some(link) => Ok(Framed { link, normalized }),
        None => Err("frame.invalid"),
    }
}

impl Framed {
    /// Application payload for frames that carry one.
    pub fn payload(&self) -> Option<(usize, usize)> {
        match self.link {
            Link::Long { at, len, .. } | Link::Control { at, len, .. } | Link::Wireless { at, len, .. } => {
                Some((at, len))
            }
            _ => None,
        }
    }
}

/// Initialisation vector and plaintext; `Err` carries the error code.
pub fn decrypt(mode: u8, key: &[u8; 16], iv: [u8; 16], data: &[u8]) -> Result<Vec<u8>, &'static str> {
    match mode {
        5 | 7 if data.is_empty() => Err("security.decryption_failed"),
        5 => Ok(aes::cbc_decrypt(key, iv, data)),
        7 => Ok(aes::cbc_decrypt(key, [0; 16], data)),
        _ => Err("security.unsupported_mode"),
    }
}

pub fn iv5(mfr: u16, id: u32, version: u8, device: u8, access: u8) -> [u8; 16] {
    let mut iv = [access; 16];
    iv[..2].copy_from_slice(&mfr.to_le_bytes());
    iv[2..6].copy_from_slice(&bcd_le(id));
    iv[6] = version;
    iv[7] = device;
    iv
}

pub struct Decoded {
    pub doc: Value,
    pub framed: Framed,
    pub app: Option<(App, Option<Ell>)>,
    /// Record area that was decoded, and its split.
    pub area: Option<(Vec<u8>, record::Parsed)>,
}

/// The canonical document, without enrichment, raw input and diagnostic messages.
pub fn decode(d: &[u8], key: Option<&[u8; 16]>, cfg: Config) -> Result<Decoded, &'static str> {
    let framed = frame(d)?;
    let mut frame_o = Map::new();
    let mut kind = |k: &str| frame_o.insert("kind".into(), json!(k));
    let mut link_identity = None;
    match &framed.link {
        Link::Single => {
            kind("single_character");
        }
        Link::Short { control, address } => {
            kind("short");
            frame_o.insert("function".into(), json!(function_name(*control)));
            frame_o.insert("address".into(), json!(address_name(*address)));
        }
        Link::Control { control, address, .. } => {
            kind("control");
            frame_o.insert("function".into(), json!(function_name(*control)));
            frame_o.insert("address".into(), json!(address_name(*address)));
        }
        Link::Long { control, address, .. } => {
            kind("long");
            frame_o.insert("function".into(), json!(function_name(*control)));
            frame_o.insert("address".into(), json!(address_name(*address)));
        }
        Link::Wireless { control, id, .. } => {
            kind("wireless");
            if let Some(f) = function_name(*control) {
                frame_o.insert("function".into(), json!(f));
            }
            frame_o.insert("control_field".into(), json!(format!("{control:02X}")));
            link_identity = Some(json!({
                "source": "link.wireless", "id": format!("{:08}", id.id),
                "manufacturer_code": mfr_letters(id.mfr), "version": id.version,
                "device_type": device_name(id.device), "device_type_code": id.device,
            }));
        }
    }
    let wireless_frame = matches!(framed.link, Link::Wireless { .. });
    let payload = framed.payload().map(|(a, n)| framed.normalized[a..a + n].to_vec());
    let parsed_payload = match framed.link {
        Link::Long { .. } | Link::Wireless { .. } => payload.clone(),
        _ => None,
    };
    let app = parsed_payload.as_ref().map(|p| application(p));
    let app_failed = matches!(app, Some(None));
    let app = app.flatten();

    let mut identity = None;
    let mut transport = Map::new();
    let mut access: Vec<Value> = vec![];
    let mut statuses: Vec<Value> = vec![];
    let mut mode: Option<u8> = None;
    let mut encrypted = false;
    let mut ell_encrypted = false;
    let mut at: Option<usize> = None;
    let mut msb_first = false;
    // context of the mode 5 initialisation vector
    let mut iv: Option<[u8; 16]> = None;
    let status = |src: &str, s: u8| json!({"source": src, "raw": format!("{s:02X}"), "display": status_name(s)});
    if let Some((a, ell)) = &app {
        match a {
            App::Reset => {
                transport.insert("header_kind".into(), json!("application_reset"));
            }
            App::Fixed { id, access: acc, status: st, type_unit, .. } => {
                transport.insert("header_kind".into(), json!("fixed"));
                access.push(json!({"source": "application.fixed", "value": acc}));
                statuses.push(status("application.fixed", *st));
                identity = Some(json!({"source": "application.fixed", "id": format!("{id:08}"),
                    "device_type": format!("fixed type/unit 0x{type_unit:04X}")}));
            }
            App::Long { id, mfr, version, device, access: acc, status: st, cfg: c, at: pos, msb_first: msb } => {
                transport.insert("header_kind".into(), json!("long_tpl"));
                access.push(json!({"source": "tpl.long", "value": acc}));
                statuses.push(status("tpl.long", *st));
                transport.insert("configuration".into(), json!({"source": "tpl.long", "raw": format!("{c:04X}")}));
                let mut o = json!({"source": "tpl.long", "id": format!("{id:08}"), "version": version,
                    "device_type": device_name(*device), "device_type_code": device});
                if let Some(m) = mfr_letters(*mfr) {
                    o["manufacturer_code"] = json!(m);
                    iv = Some(iv5(*mfr, *id, *version, *device, *acc));
                }
                identity = Some(o);
                let m = (c >> 8) as u8 & 0x1F;
                mode = Some(m);
                encrypted = m != 0;
                at = Some(*pos);
                msb_first = *msb;
            }
            App::Short { access: acc, status: st, cfg: c, at: pos } => {
                transport.insert("header_kind".into(), json!("short_tpl"));
                access.push(json!({"source": "tpl.short", "value": acc}));
                statuses.push(status("tpl.short", *st));
                transport.insert("configuration".into(), json!({"source": "tpl.short", "raw": format!("{c:04X}")}));
                if let Link::Wireless { id, .. } = &framed.link {
                    iv = Some(iv5(id.mfr, id.id, id.version, id.device, *acc));
                }
                let m = (c >> 8) as u8 & 0x1F;
                mode = Some(m);
                encrypted = m != 0;
                at = Some(*pos);
            }
            App::None { at: pos } => {
                transport.insert("header_kind".into(), json!(if ell.is_some() { "ell" } else { "none" }));
                at = Some(*pos);
            }
            App::EllOnly => {
                transport.insert("header_kind".into(), json!("ell"));
                encrypted = true;
                ell_encrypted = true;
            }
        }
        if let Some(e) = ell {
            if access.is_empty() {
                access.push(json!({"source": "ell", "value": e.access}));
            }
            let mut o = json!({"communication_control": format!("{:02X}", e.cc), "access_number": e.access});
            if let Some((m, addr)) = &e.receiver {
                o["receiver_manufacturer"] = json!(format!("{m:04X}"));
                o["receiver_address"] = json!(hx(addr));
            }
            if let Some((s, c)) = &e.session {
                o["session_number"] = json!(hx(s));
                o["payload_crc"] = json!(format!("{c:04X}"));
            }
            transport.insert("ell".into(), o);
        }
    }
    for (k, v) in [("access_numbers", access), ("statuses", statuses)] {
        if !v.is_empty() {
            transport.insert(k.into(), json!(v));
        }
    }

    // security
    let mut decrypted: Option<Vec<u8>> = None;
    if encrypted {
        if let Some(k) = key {
            if ell_encrypted {
                return Err("security.unsupported_mode");
            }
            if !cfg.decryption {
                return Err("security.feature_unavailable");
            }
            let p = parsed_payload.as_ref().unwrap();
            let iv = iv.ok_or("security.decryption_failed")?;
            decrypted = Some(decrypt(mode.unwrap(), k, iv, &p[at.unwrap()..])?);
        }
    }
    let key_supplied = key.is_some();
    let mut security = json!({
        "payload_protection": if encrypted { "encrypted" } else { "cleartext" },
        "decryption_state": if !encrypted { "not_applicable" } else if decrypted.is_some() { "decrypted_unverified" } else { "key_missing" },
        "key_supplied": key_supplied,
    });
    if let Some(m) = mode {
        security["mode"] = json!(mode_name(m));
        security["mode_code"] = json!(m);
    }
    if encrypted {
        security["encrypted_payload_hex"] = json!(hx(payload.as_ref().unwrap()));
    }
    if let Some(p) = &decrypted {
        security["decrypted_payload_hex"] = json!(hx(p));
    }

    // records
    let area_bytes: Option<Vec<u8>> = if let Some(p) = &decrypted {
        Some(p.clone())
    } else if !encrypted {
        at.map(|a| parsed_payload.as_ref().unwrap()[a..].to_vec())
    } else {
        None
    };
    let area = area_bytes.map(|b| {
        let p = record::parse(&b, msb_first, cfg.plain_before);
        (b, p)
    });
    let records: Vec<Value> = area
        .as_ref()
        .map(|(b, p)| p.records.iter().enumerate().map(|(i, r)| record::record_json(i, r, b)).collect())
        .unwrap_or_default();

    // diagnostics
    let mut diags = vec![];
    if app_failed {
        diags.push(json!({"severity": "warning", "code": "application.partial", "layer": "application"}));
    }
    if encrypted && decrypted.is_none() {
        diags.push(json!({"severity": "warning", "code": "security.key_missing", "layer": "security"}));
    } else if decrypted.is_some() {
        diags.push(json!({"severity": "info", "code": "security.decrypted_unverified", "layer": "security"}));
    } else if key_supplied {
        diags.push(json!({"severity": "info", "code": "security.key_unused", "layer": "security"}));
    }
    let rec_err = area.as_ref().and_then(|(_, p)| p.error);
    if let Some((o, _)) = rec_err {
        diags.push(json!({"severity": "warning", "code": "application.record_partial", "layer": "application", "offset_start": o}));
    }
    let partial = app_failed || rec_err.is_some() || (encrypted && decrypted.is_none());

    let mut meter = Map::new();
    let mut alternates = vec![];
    match (identity, link_identity) {
        (Some(i), l) => {
            if i["source"] == "tpl.long" {
                alternates.extend(l);
            }
            meter.insert("identity".into(), i);
        }
        (None, Some(l)) => {
            meter.insert("identity".into(), l);
        }
        _ => {}
    }
    if !alternates.is_empty() {
        meter.insert("alternate_identities".into(), json!(alternates));
    }
    let mut raw = json!({
        "original_frame_hex": hx(d),
        "normalized_frame_hex": hx(&framed.normalized),
        "byte_length": d.len(),
        "format_a_crc_stripped": framed.normalized.len() != d.len(),
    });
    if let Some(p) = &payload {
        raw["payload_hex"] = json!(hx(p));
    }
    let doc = json!({
        "schema_version": 3,
        "decode_state": if partial { "partial" } else { "complete" },
        "protocol": if wireless_frame { "wireless" } else { "wired" },
        "frame": frame_o,
        "meter": meter,
        "transport": transport,
        "security": security,
        "records": records,
        "raw": raw,
        "diagnostics": diags,
    });
    Ok(Decoded {
        doc,
        framed,
        app,
        area,
    })
}

/// Removes what the model does not predict; checks messages are present.
pub fn normalise(mut doc: Value) -> Value {
    if let Some(ds) = doc.get_mut("diagnostics").and_then(Value::as_array_mut) {
        for d in ds {
            if d.get("message").and_then(Value::as_str).is_some_and(|m| !m.trim().is_empty()) {
                d.as_object_mut().unwrap().remove("message");
            }
        }
    }
    if let Some(o) = doc.as_object_mut() {
        o.remove("enrichment");
        if let Some(r) = o.get_mut("raw").and_then(Value::as_object_mut) {
            r.remove("input");
        }
    }
    doc
}

/// First path at which two documents differ.
pub fn diff(want: &Value, got: &Value) -> Option<(String, String)> {
    fn go(path: &str, w: &Value, g: &Value) -> Option<(String, String)> {
        match (w, g) {
            (Value::Object(a), Value::Object(b)) => {
                for (k, x) in a {
                    match b.get(k) {
                        Some(y) => {
                            if let Some(r) = go(&format!("{path}/{k}"), x, y) {
                                return Some(r);
                            }
                        }
                        None => return Some((format!("{path}/{k}"), format!("expected {x}, absent"))),
                    }
                }
                for (k, y) in b {
                    if !a.contains_key(k) {
                        return Some((format!("{path}/{k}"), format!("unexpected {y}")));
                    }
                }
                None
            }
            (Value::Array(a), Value::Array(b)) => {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    if let Some(r) = go(&format!("{path}/{i}"), x, y) {
                        return Some(r);
                    }
                }
                if a.len() != b.len() {
                    return Some((format!("{path}/len"), format!("expected {} items, got {}", a.len(), b.len())));
                }
                None
            }
            _ if w == g => None,
            _ => Some((path.to_string(), format!("expected {w}, got {g}"))),
        }
    }
    go("", want, got)
}

/// Path with array indexes removed, for stable signatures.
pub fn path_class(p: &str) -> String {
    p.split('/')
        .map(|s| if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) { "*" } else { s })
        .collect::<Vec<_>>()
        .join("/")
}
