//! C20: XML rendering against the libmbus normalization rules.

use super::common::*;
use super::text::{hostile_text_record, rich_telegram};
use crate::engine::*;
use crate::gen;
use crate::model::{self, record, App, Link};
use std::sync::OnceLock;

pub struct C20;

/// Normalization table of libmbus: code, factor, unit, quantity.
fn vif_table() -> &'static [Option<(f64, &'static str, &'static str)>] {
    static T: OnceLock<Vec<Option<(f64, &'static str, &'static str)>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![None; 0x300];
        for l in include_str!("../../data/libmbus_vif.tsv").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            v[usize::from_str_radix(f[0], 16).unwrap()] = Some((f[1].parse().unwrap(), f[2], f[3]));
        }
        v
    })
}

pub fn medium(c: u8) -> String {
    const LOW: [&str; 0x1D] = [
        "Other",
        "Oil",
        "Electricity",
        "Gas",
        "Heat: Outlet",
        "Steam",
        "Warm water (30-90°C)",
        "Water",
        "Heat Cost Allocator",
        "Compressed Air",
        "Cooling load meter: Outlet",
        "Cooling load meter: Inlet",
        "Heat: Inlet",
        "Heat / Cooling load meter",
        "Bus/System",
        "Unknown Medium",
        "Irrigation Water",
        "Water Logger",
        "Gas Logger",
        "Gas Converter",
        "Calorific value",
        "Hot water (>90°C)",
        "Cold water",
        "Dual water",
        "Pressure",
        "A/D Converter",
        "Smoke Detector",
        "Ambient Sensor",
        "Gas Detector",
    ];
    if let Some(s) = LOW.get(usize::from(c)) {
        return s.to_string();
    }
    match c {
        0x20 => "Breaker: Electricity".into(),
        0x21 => "Valve: Gas or Water".into(),
        0x25 => "Customer Unit: Display Device".into(),
        0x28 => "Waste Water".into(),
        0x29 => "Garbage".into(),
        0x30 => "Service Unit".into(),
        0x36 => "Radio Converter: System".into(),
        0x37 => "Radio Converter: Meter".into(),
        0x1D..=0x1F | 0x35 | 0x40.. => format!("Unknown medium (0x{c:02x})"),
        _ => "Reserved".into(),
    }
}

/// Product names: manufacturer, medium or any, version range, name.
const PRODUCTS: &[(&str, Option<u8>, u8, u8, &str)] = &[
    ("ABB", None, 0x02, 0x02, "ABB Delta-Meter"),
    ("ABB", None, 0x20, 0x20, "ABB B21 113-100"),
    ("ACW", None, 0x09, 0x09, "Itron CF Echo 2"),
    ("ACW", None, 0x0A, 0x0A, "Itron CF 51"),
    ("ACW", None, 0x0B, 0x0B, "Itron CF 55"),
    ("ACW", None, 0x0E, 0x0E, "Itron BM +m"),
    ("ACW", None, 0x0F, 0x0F, "Itron CF 800"),
    ("ACW", None, 0x14, 0x14, "Itron CYBLE M-Bus 1.4"),
    ("AMT", None, 0xC0, 0xFF, "Aquametro CALEC ST"),
    ("AMT", None, 0x80, 0xBF, "Aquametro CALEC MB"),
    ("AMT", None, 0x40, 0x7F, "Aquametro SAPHIR"),
    ("AMT", None, 0x00, 0x3F, "Aquametro AMTRON"),
    ("BEC", Some(2), 0x00, 0x00, "Berg DCMi"),
    ("BEC", Some(2), 0x07, 0x07, "Berg BLMi"),
    ("BEC", Some(15), 0x71, 0x71, "Berg BMB-10S0"),
    ("EFE", Some(6), 0x00, 0x00, "Engelmann WaterStar"),
    ("EFE", None, 0x00, 0x00, "Engelmann / Elster SensoStar 2"),
    ("EFE", None, 0x01, 0x01, "Engelmann SensoStar 2C"),
    ("ELS", None, 0x02, 0x02, "Elster TMP-A"),
    ("ELS", None, 0x0A, 0x0A, "Elster Falcon"),
    ("ELS", None, 0x2F, 0x2F, "Elster F96 Plus"),
    ("ELV", None, 0x14, 0x1D, "Elvaco CMa10"),
    ("ELV", None, 0x32, 0x3B, "Elvaco CMa11"),
    ("EMH", None, 0x00, 0x00, "EMH DIZ"),
    ("EMU", Some(2), 0x10, 0x10, "EMU Professional 3/75 M-Bus"),
    ("GAV", Some(2), 0x2D, 0x30, "Carlo Gavazzi EM24"),
    ("GAV", Some(2), 0x39, 0x3A, "Carlo Gavazzi EM21"),
    ("GAV", Some(2), 0x40, 0x40, "Carlo Gavazzi EM33"),
    ("GMC", None, 0xE6, 0xE6, "GMC-I A230 EMMOD 206"),
    ("KAM", None, 0x01, 0x01, "Kamstrup 382 (6850-005)"),
    ("KAM", None, 0x08, 0x08, "Kamstrup Multical 601"),
    ("SLB", None, 0x02, 0x02, "Allmess Megacontrol CF-50"),
    ("SLB", None, 0x06, 0x06, "CF Compact / Integral MK MaXX"),
    ("HYD", None, 0x28, 0x28, "ABB F95 Typ US770"),
    ("HYD", None, 0x2F, 0x2F, "Hydrometer Sharky 775"),
    ("JAN", Some(2), 0x09, 0x09, "Janitza UMG 96S"),
    ("LUG", None, 0x02, 0x02, "Landis & Gyr Ultraheat 2WR5"),
    ("LUG", None, 0x03, 0x03, "Landis & Gyr Ultraheat 2WR6"),
    ("LUG", None, 0x04, 0x04, "Landis & Gyr Ultraheat UH50"),
    ("LUG", None, 0x07, 0x07, "Landis & Gyr Ultraheat T230"),
    ("LSE", None, 0x99, 0x99, "Siemens WFH21"),
    ("NZR", None, 0x01, 0x01, "NZR DHZ 5/63"),
    ("NZR", None, 0x50, 0x50, "NZR IC-M2"),
    ("RAM", None, 0x03, 0x03, "Rossweiner ETK/ETW Modularis"),
    ("REL", None, 0x08, 0x08, "Relay PadPuls M1"),
    ("REL", None, 0x12, 0x12, "Relay PadPuls M4"),
    ("REL", None, 0x20, 0x20, "Relay Padin 4"),
    ("REL", None, 0x30, 0x30, "Relay AnDi 4"),
    ("REL", None, 0x40, 0x40, "Relay PadPuls M2"),
    ("RKE", None, 0x69, 0x69, "Ista sensonic II mbus"),
    ("SEN", None, 0x08, 0x08, "Sensus PolluCom E"),
    ("SEN", None, 0x19, 0x19, "Sensus PolluCom E"),
    ("SEN", None, 0x0B, 0x0B, "Sensus PolluTherm"),
    ("SEN", None, 0x0E, 0x0E, "Sensus PolluStat E"),
    ("SON", None, 0x0D, 0x0D, "Sontex Supercal 531"),
    ("SPX", None, 0x31, 0x31, "Sensus PolluTherm"),
    ("SPX", None, 0x34, 0x34, "Sensus PolluTherm"),
    ("SVM", None, 0x08, 0x08, "Elster F2 / Deltamess F2"),
    ("SVM", None, 0x09, 0x09, "Elster F4 / Kamstrup SVM F22"),
    ("TCH", None, 0x26, 0x26, "Techem m-bus S"),
    ("TCH", None, 0x40, 0x40, "Techem ultra S3"),
    ("WZG", None, 0x03, 0x03, "Modularis ETW-EAX"),
    ("ZRM", None, 0x81, 0x81, "Minol Minocal C2"),
    ("ZRM", None, 0x82, 0x82, "Minol Minocal WR3"),
];

/// Product names selected by the two leading digits of the identification number.
const BY_ID: &[(&str, u32, &str)] = &[
    ("SBC", 10, "Saia-Burgess ALE3"),
    ("SBC", 19, "Saia-Burgess ALE3"),
    ("SBC", 11, "Saia-Burgess AWD3"),
    ("SEO", 30, "Sensoco PT100"),
    ("SEO", 41, "Sensoco 2-NTC"),
    ("SEO", 45, "Sensoco Laser Light"),
    ("SEO", 48, "Sensoco ADIO"),
    ("SEO", 51, "Sensoco THU"),
    ("SEO", 61, "Sensoco THU"),
    ("SEO", 80, "Sensoco PulseCounter for E-Meter"),
];

fn product(mfr: &str, version: u8, dev: u8, id: u32) -> &'static str {
    if ["SBC", "SEO", "GTE"].contains(&mfr) {
        let m = if mfr == "GTE" { "SEO" } else { mfr };
        return BY_ID.iter().find(|x| x.0 == m && x.1 == id / 1_000_000).map_or("", |x| x.2);
    }
    PRODUCTS
        .iter()
        .find(|p| p.0 == mfr && p.1.is_none_or(|m| m == dev) && (p.2..=p.3).contains(&version))
        .map_or("", |p| p.4)
}

pub fn fixed_medium(hi: u8, lo: u8) -> &'static str {
    [
        "Other",
        "Oil",
        "Electricity",
        "Gas",
        "Heat",
        "Steam",
        "Hot Water",
        "Water",
        "H.C.A.",
        "Reserved",
        "Gas Mode 2",
        "Heat Mode 2",
        "Hot Water Mode 2",
        "Water Mode 2",
        "H.C.A. Mode 2",
        "Reserved",
    ][usize::from(hi >> 6 | (lo >> 6) << 2)]
}

pub fn fixed_unit(b: u8) -> String {
    let c = b & 0x3F;
    let tens = ["", "10 ", "100 "];
    let run = |at: u8, units: &[&str]| {
        let k = usize::from(c - at);
        format!("{}{}", tens[k % 3], units[k / 3])
    };
    match c {
        0x00 => "h,m,s".into(),
        0x01 => "D,M,Y".into(),
        0x0D => "MJ".into(),
        0x0E => "100 kJ".into(),
        0x02..=0x13 => run(0x02, &["Wh", "kWh", "MWh", "kJ", "MJ", "GJ"]),
        0x14..=0x25 => run(0x14, &["W", "kW", "MW", "kJ/h", "MJ/h", "GJ/h"]),
        0x26..=0x37 => run(0x26, &["ml", "l", "m^3", "ml/h", "l/h", "m^3/h"]),
        0x38 => "1e-3 °C".into(),
        0x39 => "units for HCA".into(),
        0x3E => "reserved but historic".into(),
        0x3F => "without units".into(),
        _ => "reserved".into(),
    }
}

type Fields = Vec<(String, String)>;

#[derive(Debug, PartialEq)]
pub struct Tree {
    pub slave: Fields,
    pub records: Vec<(String, Fields)>,
}

/// Reads the document strictly: declaration, one root, two levels, known entities only.
pub fn read_xml(s: &str) -> Result<Tree, String> {
    let mut r = Reader { s, at: 0 };
    r.expect("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>")?;
    r.blank();
    r.expect("<MBusData>")?;
    r.blank();
    let mut t = Tree {
        slave: vec![],
        records: vec![],
    };
    r.expect("<SlaveInformation>")?;
    t.slave = r.fields("SlaveInformation")?;
    loop {
        r.blank();
        if r.rest().starts_with("</MBusData>") {
            r.expect("</MBusData>")?;
            break;
        }
        r.expect("<DataRecord id=\"")?;
        let n = r.rest().find('"').ok_or("attribute not closed")?;
        let id = r.rest()[..n].to_string();
        r.at += n;
        r.expect("\">")?;
        t.records.push((id, r.fields("DataRecord")?));
    }
    r.blank();
    if !r.rest().is_empty() {
        return Err("text after the root element".into());
    }
    Ok(t)
}

struct Reader<'a> {
    s: &'a str,
    at: usize,
}

impl<'a> Reader<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.at..]
    }
    fn blank(&mut self) {
        self.at += self.rest().len() - self.rest().trim_start_matches([' ', '\n', '\t', '\r']).len();
    }
    fn expect(&mut self, t: &str) -> Result<(), String> {
        if self.rest().starts_with(t) {
            self.at += t.len();
            Ok(())
        } else {
            let near: String = self.rest().chars().take(30).collect();
            Err(format!("expected {t:?} at {}, found {near:?}", self.at))
        }
    }
    fn fields(&mut self, parent: &str) -> Result<Fields, String> {
        let mut v = vec![];
        loop {
            self.blank();
            if self.rest().starts_with("</") {
                self.expect(&format!("</{parent}>"))?;
                return Ok(v);
            }
            self.expect("<")?;
            let n = self.rest().find('>').ok_or("tag not closed")?;
            let name = self.rest()[..n].to_string();
            if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric()) {
                return Err(format!("element name {name:?}"));
            }
            self.at += n + 1;
            let n = self.rest().find('<').ok_or("element not closed")?;
            let text = plain_text(&self.rest()[..n])?;
            self.at += n;
            self.expect(&format!("</{name}>"))?;
            v.push((name, text));
        }
    }
}

fn plain_text(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '&' => {
                let name: String = it.by_ref().take_while(|c| *c != ';').collect();
                out.push(match name.as_str() {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    n => return Err(format!("entity {n:?}")),
                });
            }
            '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'.. => out.push(c),
            c => return Err(format!("character U+{:04X} is not allowed in XML", c as u32)),
        }
    }
    if s.contains("]]>") {
        return Err("unescaped ]]>".into());
    }
    Ok(out)
}

/// Text as it appears after control characters were blanked.
fn blanked(s: &str) -> String {
    s.chars()
        .map(|c| {
            if (c as u32) < 32 || c == '\u{7F}' || c == '\u{FFFE}' || c == '\u{FFFF}' {
                ' '
            } else {
                c
            }
        })
        .collect()
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Text(String),
    Real(f64),
}

type WantFields = Vec<(&'static str, Want)>;

fn dump(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// Fields of one record; `None` when libmbus has no normalization for it.
fn record_fields(area: &[u8], r: &record::Rec, msb_first: bool) -> Option<WantFields> {
    let dif = area[r.start];
    let data = &area[r.start + r.header..r.end];
    let t = |s: &str| Want::Text(blanked(s));
    let base = |function: &str, unit: &str, quantity: &str, value: Want| {
        let mut v = vec![("Function", t(function)), ("StorageNumber", t(&r.storage.to_string()))];
        if r.difes > 0 {
            v.push(("Tariff", t(&r.tariff.to_string())));
            v.push(("Device", t(&r.subunit.to_string())));
        }
        v.extend([("Unit", t(unit)), ("Quantity", t(quantity)), ("Value", value)]);
        v
    };
    match dif {
        0x0F => return Some(base("Manufacturer specific", "", "", t(&dump(data)))),
        0x1F => return Some(base("More records follow", "", "", t(&dump(data)))),
        _ => {}
    }
    let vif = r.vif?;
    let first = r.vifes.first().copied();
    let stamp = vif & 0x7F == 0x6D || (vif == 0xFD && first.is_some_and(|v| matches!(v & 0x7F, 0x30 | 0x70)));
    let ymd = |lo: u8, hi: u8| {
        format!("{:04}-{:02}-{:02}", 2000 + u32::from(lo >> 5) + 8 * u32::from(hi >> 4), hi & 15, lo & 31)
    };
    const UNSET: &str = "1900-01-00T00:00:00Z";
    let value = match (dif & 15, data) {
        (0, _) => t(""),
        (2, [a, b]) if vif & 0x7F == 0x6C => t(&ymd(*a, *b)),
        (4, [m, h, lo, hi]) if stamp => {
            if m & 0x80 != 0 {
                t(UNSET)
            } else {
                t(&format!("{}T{:02}:{:02}:00Z", ymd(*lo, *hi), h & 31, m & 63))
            }
        }
        (6, [s, m, h, lo, hi, _]) if stamp => {
            if m & 0x80 != 0 {
                t(UNSET)
            } else {
                t(&format!("{}T{:02}:{:02}:{:02}Z", ymd(*lo, *hi), h & 31, m & 63, s & 63))
            }
        }
        (1..=4 | 6 | 7, d) => {
            let mut w = [if d.last()? & 0x80 != 0 { 0xFF } else { 0 }; 8];
            w[..d.len()].copy_from_slice(d);
            Want::Real(i64::from_le_bytes(w) as f64)
        }
        (5, d) => Want::Real(f64::from(f32::from_le_bytes(d.try_into().ok()?))),
        (9..=12 | 14, d) => {
            // the header decides in which order the digits come
            let mut d = d.to_vec();
            if msb_first {
                d.reverse();
            }
            let mut v = 0i64;
            for (i, x) in d.iter().rev().enumerate() {
                let tens = if x >> 4 > 9 { 0 } else { x >> 4 };
                debug_assert!(tens == x >> 4 || i == 0);
                v = v * 100 + i64::from(tens) * 10 + i64::from(x & 15);
            }
            Want::Real(if d.last()? >> 4 == 15 { -v } else { v } as f64)
        }
        (13, [lvar, rest @ ..]) => {
            if *lvar < 0xC0 {
                t(&crate::model::record::text(rest))
            } else {
                t(&dump(rest))
            }
        }
        _ => return None,
    };
    let (factor, unit, quantity) = match vif {
        0xFD => vif_table()[0x100 + usize::from(first? & 0x7F)].map(|(f, u, q)| (f, u, q.to_string()))?,
        0xFB => vif_table()[0x200 + usize::from(first? & 0x7F)].map(|(f, u, q)| (f, u, q.to_string()))?,
        0x7C | 0xFC => {
            let p = r.plain.clone().unwrap_or_default();
            (1.0, "-", p.iter().rev().map(|c| *c as char).collect())
        }
        v => vif_table()[usize::from(v & 0x7F)].map(|(f, u, q)| (f, u, q.to_string()))?,
    };
    let value = match value {
        Want::Real(x) => {
            let mut x = x * factor;
            if vif & 0x80 != 0 && vif != 0xFD && vif != 0xFB {
                match first.map(|v| v & 0x7F) {
                    Some(v @ 0x70..=0x77) => x *= 10f64.powi(i32::from(v & 7) - 6),
                    Some(v @ 0x78..=0x7B) => x += 10f64.powi(i32::from(v & 3) - 3),
                    Some(0x7D) => x *= 1000.0,
                    _ => {}
                }
            }
            Want::Real(x)
        }
        v => v,
    };
    let function = ["Instantaneous value", "Maximum value", "Minimum value", "Value during error state"]
        [usize::from(dif >> 4 & 3)];
    Some(base(function, unit, &quantity, value))
}

/// The texts and plaintext unit which the XML rendering of a record contains.
pub fn texts(area: &[u8], r: &record::Rec) -> Vec<(&'static str, String)> {
    let text = matches!(r.value, record::Val::Text(_));
    record_fields(area, r, false)
        .unwrap_or_default()
        .into_iter()
        .filter_map(|(name, want)| match (name, want) {
            ("Quantity", Want::Text(t)) if r.plain.is_some() => Some((name, t)),
            ("Value", Want::Text(t)) if text => Some((name, t)),
            _ => None,
        })
        .collect()
}

struct WantTree {
    slave: WantFields,
    /// `None`: not predicted.
    records: Option<Vec<WantFields>>,
}

fn identity(id: u32, mfr: &str, version: u8, dev: u8) -> WantFields {
    let t = |s: String| Want::Text(s);
    vec![
        ("Id", t(id.to_string())),
        ("Manufacturer", t(mfr.to_string())),
        ("Version", t(version.to_string())),
        ("ProductName", t(product(mfr, version, dev, id).to_string())),
        ("Medium", t(medium(dev))),
    ]
}

fn expected(b: &[u8], key: Option<[u8; 16]>) -> Result<WantTree, &'static str> {
    const NO: &str = "xml.unsupported";
    let d = model::decode(b, key.as_ref(), model::Config::current()).map_err(|_| NO)?;
    let wired = !matches!(d.framed.link, Link::Wireless { .. });
    let link = match &d.framed.link {
        Link::Wireless { id, .. } => {
            Some(identity(id.id, &model::mfr_letters(id.mfr).unwrap_or_default(), id.version, id.device))
        }
        _ => None,
    };
    let t = |s: String| Want::Text(s);
    let msb = matches!(d.app, Some((App::Long { msb_first: true, .. }, _)));
    let listed = d
        .area
        .as_ref()
        .map(|(a, p)| p.records.iter().map(|r| record_fields(a, r, msb).unwrap_or_default()).collect::<Vec<_>>())
        .unwrap_or_default();
    let (app, ell) = match &d.app {
        Some((a, e)) => (Some(a), e.as_ref()),
        None => (None, None),
    };
    match app {
        Some(App::Long { id, mfr, version, device, access, status, cfg, .. }) => {
            let mut slave = identity(*id, &model::mfr_letters(*mfr).unwrap_or_default(), *version, *device);
            slave.push(("AccessNumber", t(access.to_string())));
            slave.push(("Status", t(format!("{status:02X}"))));
            slave.push(("Signature", t(format!("{cfg:04X}"))));
            let hidden = d.area.is_none();
            Ok(WantTree {
                slave,
                records: if hidden && wired { None } else { Some(listed) },
            })
        }
        Some(App::Fixed { id, access, status, type_unit, counters }) => {
            let types = type_unit.to_be_bytes();
            let f = if status & 0x40 != 0 { "Stored value" } else { "Actual value" };
            Ok(WantTree {
                slave: vec![
                    ("Id", t(id.to_string())),
                    ("Medium", t(fixed_medium(types[0], types[1]).into())),
                    ("AccessNumber", t(access.to_string())),
                    ("Status", t(format!("{status:02X}"))),
                ],
                records: Some(
                    (0..2)
                        .map(|i| {
                            vec![
                                ("Function", t(f.into())),
                                ("Unit", t(fixed_unit(types[i]))),
                                ("Value", t(counters[i].to_string())),
                            ]
                        })
                        .collect(),
                ),
            })
        }
        a => {
            let mut slave = link.ok_or(NO)?;
            match a {
                Some(App::Short { access, status, cfg, .. }) => {
                    slave.push(("AccessNumber", t(access.to_string())));
                    slave.push(("Status", t(format!("{status:02X}"))));
                    slave.push(("Signature", t(format!("{cfg:04X}"))));
                }
                Some(App::None { .. } | App::EllOnly) => {
                    if let Some(e) = ell {
                        slave.push(("AccessNumber", t(e.access.to_string())));
                    }
                }
                _ => {}
            }
            Ok(WantTree {
                slave,
                records: Some(listed),
            })
        }
    }
}

fn agree(want: &Want, got: &str) -> bool {
    match want {
        Want::Text(t) => t == got,
        Want::Real(x) => {
            if !x.is_finite() {
                let f = got.to_ascii_lowercase();
                return if x.is_nan() {
                    f.trim_start_matches('-') == "nan"
                } else {
                    f == if *x > 0.0 { "inf" } else { "-inf" }
                };
            }
            let plain = got.rsplit_once('.').is_some_and(|(_, d)| d.len() == 6 && d.bytes().all(|c| c.is_ascii_digit()));
            match got.parse::<f64>() {
                Ok(y) if plain => (x - y).abs() <= 1.1e-6_f64.max(x.abs() * 1e-12),
                _ => false,
            }
        }
    }
}

fn compare(what: &str, want: &WantFields, got: &Fields, b: &[u8]) -> Verdict {
    let names: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
    let wanted: Vec<&str> = want.iter().map(|x| x.0).collect();
    if names != wanted {
        return Err(Fail::new(
            format!("{what}-elements"),
            format!("{}: {what} has elements {names:?}, expected {wanted:?}", hex(b)),
        ));
    }
    for ((n, w), (_, g)) in want.iter().zip(got) {
        if !agree(w, g) {
            return Err(Fail::new(
                format!("{what}-{n}"),
                format!("{}: {what} {n} is {g:?}, expected {w:?}", hex(b)),
            ));
        }
    }
    Ok(())
}

/// Renders and compares one telegram.
pub fn check(b: &[u8], key: Option<[u8; 16]>) -> Verdict {
    let got = render(b, key, Fmt::Xml, None, true)?;
    match (got, expected(b, key)) {
        (Ok(g), Ok(w)) => {
            let tree = read_xml(&g).map_err(|e| Fail::new("xml-not-wellformed", format!("{}: {e}", hex(b))))?;
            compare("xml-slave", &w.slave, &tree.slave, b)?;
            if let Some(r) = &w.records {
                if r.len() != tree.records.len() {
                    return Err(Fail::new("xml-record-count", format!("{}: {} records", hex(b), tree.records.len())));
                }
                for (w, (_, g)) in r.iter().zip(&tree.records) {
                    compare("xml-record", w, g, b)?;
                }
            }
            Ok(())
        }
        (Err(g), Err(w)) if g == w => Ok(()),
        (g, w) => Err(Fail::new("xml-outcome", format!("{}: rendered {}, expected {}", hex(b), g.is_ok(), w.is_ok()))),
    }
}

const CODINGS: [u8; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];

impl Monitor for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "distinct (framing, header, outcome) triples and (coding, VIF, first VIFE) triples of compared records"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(250_000, 1_000_000)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "libmbus tables as of the version the repository's .norm.xml corpus was made with",
            "values of most-significant-byte-first telegrams and records of wired telegrams whose header claims encryption (no key) are not compared",
        ]
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        match idx % 8 {
            0 | 1 => rich_telegram(rng.u64(), rng),
            2 | 3 => {
                // sweep of VIF and first VIFE codes under every coding
                let k = (idx / 8) * 2 + idx % 2;
                let dif = CODINGS[(k / 2 % 15) as usize] | (rng.u8() & 0x70);
                let code = if idx % 2 == 0 { (k / 30) % 384 } else { 384 + rng.below(128 * 16) };
                let mut rec = vec![dif];
                if rng.chance(1, 4) {
                    rec[0] |= 0x80;
                    rec.push(rng.u8() & 0x7F);
                }
                let c = (code & 0x7F) as u8;
                match code / 128 {
                    0 => rec.push(c),
                    1 => rec.extend([0xFD, c]),
                    2 => rec.extend([0xFB, c]),
                    n => rec.extend([0x80 | c, 0x70 | (n - 3) as u8]),
                }
                let vib = rec[1..].to_vec();
                rec.extend(gen::gen_data(rng, dif, &vib));
                if rng.chance(1, 2) {
                    rec.extend(gen::gen_record(rng, PLAIN));
                }
                rec.truncate(200);
                Case::bytes("codes", wrap_records(rng, &rec))
            }
            4 => {
                let mut area = vec![];
                for _ in 0..1 + rng.usize(3) {
                    area.extend(hostile_text_record(rng));
                }
                if rng.chance(1, 4) {
                    // around the longest text
                    let n = 0xBC + rng.below(4) as u8;
                    area = vec![0x0D, *rng.pick(&[0x13, 0x78, 0x79]), n];
                    area.extend(gen::text_bytes(rng, usize::from(n)));
                }
                if rng.chance(1, 2) {
                    area.extend([0x01, 0xFC]);
                    let t = *rng.pick(&[&b"<b>"[..], b"a&b", b"\"x\"", b"kWh", b"m\x00\x1F", b"%RH"]);
                    area.push(t.len() as u8);
                    area.extend(t);
                    area.extend([0x3B, rng.u8()]);
                }
                area.truncate(200);
                Case::bytes("text", wrap_records(rng, &area))
            }
            5 => {
                // products and media
                let (m, med, v) = if rng.chance(1, 6) {
                    let x = rng.pick(BY_ID);
                    (x.0, rng.u8(), rng.u8())
                } else {
                    let x = rng.pick(PRODUCTS);
                    let v = *rng.pick(&[x.2, x.3, x.2.wrapping_sub(1), x.3.wrapping_add(1)]);
                    (x.0, x.1.unwrap_or(rng.u8()), v)
                };
                let m = if m == "SEO" && rng.chance(1, 2) { "GTE" } else { m };
                let med = if rng.chance(1, 4) { (idx / 8) as u8 } else { med };
                let mut code = [0u8; 3];
                code.copy_from_slice(m.as_bytes());
                let mfr = gen::mfr_id(&code);
                let lead = rng.pick(BY_ID).1;
                let num = lead * 1_000_000 + rng.below(1_000_000) as u32;
                let num = if rng.chance(1, 4) { rng.below(1000) as u32 } else { num };
                let id = model::bcd_le(num);
                let rec = [0x01, 0x13, rng.u8()];
                if rng.chance(1, 2) {
                    let mut app = vec![0x72];
                    app.extend(id);
                    app.extend(mfr.to_le_bytes());
                    app.extend([v, med, rng.u8(), rng.u8(), rng.u8() & 3, 0]);
                    app.extend(rec);
                    Case::bytes("product-wired", gen::wired(0x08, rng.u8(), &app))
                } else {
                    let head = gen::wireless_header(0x44, mfr, id, v, med);
                    let mut app = vec![0x7A, rng.u8(), rng.u8(), 0, 0];
                    app.extend(rec);
                    Case::bytes("product-wireless", gen::wireless_plain(&head, &app))
                }
            }
            6 => {
                let mut app = vec![*rng.pick(&[0x73u8, 0x77])];
                app.extend(gen::bcd_bytes(rng, 4));
                app.extend([rng.u8(), rng.u8()]);
                let k = idx / 8;
                app.extend([k as u8, if rng.chance(1, 2) { rng.u8() } else { (k >> 8) as u8 }]);
                app.extend(gen::bcd_bytes(rng, 8));
                Case::bytes("fixed", gen::wired(0x08, rng.u8(), &app))
            }
            _ => telegram(rng.u64(), rng),
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let got = render(&case.bytes, case.key, Fmt::Xml, None, true)?;
        obs.eval();
        let want = expected(&case.bytes, case.key);
        let (got, want) = match (got, want) {
            (Err(g), Err(w)) => {
                obs.feature(&format!("{}/{g}", case.kind));
                if g != w {
                    return Err(Fail::new("code", format!("{}: error {g}, expected {w}", hex(&case.bytes))));
                }
                return Ok(());
            }
            (Ok(g), Ok(w)) => (g, w),
            (g, w) => {
                return Err(Fail::new(
                    "outcome",
                    format!("{}: rendered {}, expected {}", hex(&case.bytes), g.is_ok(), w.is_ok()),
                ))
            }
        };
        let tree = read_xml(&got).map_err(|e| Fail::new("not-wellformed", format!("{}: {e}\n{got}", hex(&case.bytes))))?;
        obs.feature(&format!("{}/{}/{}", case.kind, want.slave.len(), want.records.as_ref().map_or(99, |r| r.len().min(9))));
        compare("slave", &want.slave, &tree.slave, &case.bytes)?;
        for (i, (id, _)) in tree.records.iter().enumerate() {
            if *id != i.to_string() {
                return Err(Fail::new("record-id", format!("{}: record {i} has id {id}", hex(&case.bytes))));
            }
        }
        let Some(records) = &want.records else {
            return Ok(());
        };
        if records.len() != tree.records.len() {
            return Err(Fail::new(
                "record-count",
                format!("{}: {} records, expected {}", hex(&case.bytes), tree.records.len(), records.len()),
            ));
        }
        for (w, (_, g)) in records.iter().zip(&tree.records) {
            obs.evals(1);
            compare("record", w, g, &case.bytes)?;
            if let Some((_, v)) = w.last() {
                obs.count("records compared");
                let shape = match v {
                    Want::Real(_) => "real",
                    Want::Text(_) => "text",
                };
                let u: Vec<String> = w.iter().filter(|x| x.0 == "Unit" || x.0 == "Quantity").map(|x| format!("{:?}", x.1)).collect();
                obs.feature(&format!("{shape}/{}/{}", w.len(), u.join("/")));
            } else {
                obs.count("records without normalization");
            }
        }
        obs.sample(|| format!("{} -> {} records, {}", hex(&case.bytes), records.len(), tree.slave.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(" | ")));
        Ok(())
    }
}
