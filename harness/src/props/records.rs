//! C06-C12: data records.

use super::common::*;
use crate::engine::*;
use crate::gen;
use crate::model::{self, record, record::Parsed, record::Rec, record::Val};
use m_bus_application_layer as app;
use m_bus_parser::output;
use serde_json::{json, Value};

/// One place where records of the same record area can be observed.
pub struct View {
    pub source: &'static str,
    pub records: Vec<Value>,
    pub area: Vec<u8>,
    pub want: Parsed,
    /// Offset of the first unparsed byte, if the source reported a defect.
    pub error: Option<Option<usize>>,
    pub doc: Option<Value>,
}

fn offset_in(msg: &str) -> Option<usize> {
    let i = msg.find("byte offset ")?;
    msg[i + 12..]
        .chars()
        .take_while(char::is_ascii_digit)
        .collect::<String>()
        .parse()
        .ok()
}

/// The record area (`bytes`) through the strict record API and inside a telegram (`aux`).
pub fn views(case: &Case, obs: &mut Obs) -> Result<Vec<View>, Fail> {
    let mut out = vec![];
    if !case.bytes.is_empty() {
        let want = record::parse(&case.bytes, false, PLAIN);
        let r = guard("decode_data_records", || output::decode_data_records(&case.bytes))?;
        obs.eval();
        let (records, error) = match r {
            Ok(r) => (
                match serde_json::to_value(&r) {
                    Ok(Value::Array(a)) => a,
                    o => return Err(Fail::new("serialize", format!("{o:?}"))),
                },
                None,
            ),
            Err(e) => {
                if e.code() != "application.records_invalid" {
                    return Err(Fail::new(
                        "strict-error-code",
                        format!("{}: {} {e}", hex(&case.bytes), e.code()),
                    ));
                }
                (vec![], Some(offset_in(&e.to_string())))
            }
        };
        out.push(View {
            source: "strict",
            records,
            area: case.bytes.clone(),
            want,
            error,
            doc: None,
        });
    }
    if !case.aux.is_empty() {
        let got = real_doc(&case.aux, case.key)?;
        let want = model_doc(&case.aux, case.key);
        obs.eval();
        let (g, w) = match (got, want) {
            (Ok(g), Ok(w)) => (g, w),
            (Err(g), Err(w)) if g == w => return Ok(out),
            (g, w) => {
                return Err(Fail::new(
                    "telegram-outcome",
                    format!("{}: got {:?}, expected {:?}", hex(&case.aux), g.map(|_| "document"), w.map(|_| "document")),
                ))
            }
        };
        if let Some((area, parsed)) = w.area {
            let records = g["records"].as_array().cloned().unwrap_or_default();
            let diag = g["diagnostics"]
                .as_array()
                .and_then(|a| a.iter().find(|d| d["code"] == "application.record_partial"));
            let error = diag.map(|d| d["offset_start"].as_u64().map(|x| x as usize));
            out.push(View {
                source: "telegram",
                records,
                area,
                want: parsed,
                error,
                doc: Some(g),
            });
        }
    }
    Ok(out)
}

/// Typed low-level records of an area.
pub struct Low {
    pub items: Vec<Result<LowRec, String>>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct LowRec {
    pub size: usize,
    pub raw: Vec<u8>,
    pub storage: Option<u64>,
    pub tariff: Option<u64>,
    pub device: Option<u64>,
    pub function: Option<String>,
    pub coding: Option<String>,
    pub labels: Vec<String>,
    pub units: Vec<(String, i32)>,
    pub scale: i64,
    pub plain: Option<String>,
    pub value: String,
    pub number: Option<f64>,
}

pub fn low_records(area: &[u8]) -> Result<Low, Fail> {
    guard("record iteration", || {
        let mut items = vec![];
        for r in app::parse_data_records(area) {
            items.push(match r {
                Ok(r) => {
                    let di = r.data_information();
                    let vi = r.value_information();
                    Ok(LowRec {
                        size: r.get_size(),
                        raw: r.raw_bytes().to_vec(),
                        storage: di.map(|d| d.storage_number),
                        tariff: di.map(|d| d.tariff),
                        device: di.map(|d| d.device),
                        function: di.map(|d| d.function_field.to_string()),
                        coding: di.map(|d| format!("{:?}", d.data_field_coding)),
                        labels: vi.map(|v| v.labels.iter().map(|l| format!("{l:?}")).collect()).unwrap_or_default(),
                        units: vi.map(|v| v.units.iter().map(|u| (format!("{:?}", u.name), u.exponent)).collect()).unwrap_or_default(),
                        scale: vi.map_or(0, |v| v.decimal_scale_exponent as i64),
                        plain: r
                            .data_record_header
                            .raw_data_record_header
                            .value_information_block
                            .as_ref()
                            .and_then(|v| v.plaintext_vife.as_ref().map(|p| p.iter().collect())),
                        value: format!("{:?}", r.value()),
                        number: match r.value() {
                            Some(app::data_information::DataType::Number(n) | app::data_information::DataType::LossyNumber(n)) => Some(*n),
                            _ => None,
                        },
                    })
                }
                Err(e) => Err(e.to_string()),
            });
            if items.len() > area.len() + 1 {
                break;
            }
        }
        Low { items }
    })
}

fn unspace(v: &Value) -> Option<Vec<u8>> {
    let s = v.as_str()?;
    if s.is_empty() {
        return Some(vec![]);
    }
    s.split(' ')
        .map(|t| {
            (t.len() == 2 && t.bytes().all(|c| c.is_ascii_digit() || (b'A'..=b'F').contains(&c)))
                .then(|| u8::from_str_radix(t, 16).ok())
                .flatten()
        })
        .collect()
}

fn where_(v: &View, case: &Case) -> String {
    format!("{} records {} telegram {}", v.source, hex(&case.bytes), hex(&case.aux))
}

/// Calls `f` for each observed record together with the expected one; segmentation must agree so far.
fn each(v: &View, mut f: impl FnMut(usize, &Rec, &Value, Value) -> Verdict) -> Verdict {
    for (i, (w, g)) in v.want.records.iter().zip(&v.records).enumerate() {
        let wj = record::record_json(i, w, &v.area);
        // header bytes identify the record; a different header is a segmentation matter
        if wj["header_hex"] != g["header_hex"] {
            break;
        }
        f(i, w, g, wj)?;
    }
    Ok(())
}

fn field(name: &str, v: &View, case: &Case, want: &Value, got: &Value) -> Verdict {
    if want[name] == got[name] {
        return Ok(());
    }
    Err(Fail::new(
        format!("{}:{name}", v.source),
        format!("{}: record {}: {name} expected {}, got {}", where_(v, case), got["header_hex"], want[name], got[name]),
    ))
}

fn wrap(rng: &mut Rng, area: &[u8]) -> Vec<u8> {
    if rng.chance(1, 8) {
        // most significant byte first
        let mut t = vec![0x76];
        let c = gen::cfg_clear(rng);
        t.extend(gen::long_header(rng, c));
        if rng.chance(1, 3) {
            t[5..7].copy_from_slice(&rng.arr::<2>());
        }
        t.extend(area);
        t.truncate(253);
        return gen::wired(8, rng.u8(), &t);
    }
    wrap_records(rng, area)
}

fn case_of(kind: &str, area: Vec<u8>, rng: &mut Rng) -> Case {
    let mut c = Case::bytes(kind, area);
    if rng.chance(1, 25) {
        // among others: far from the beginning and far from the end
        let room = 230usize.saturating_sub(c.bytes.len());
        let before = rng.usize(room + 1);
        c.bytes = [filling(rng, before), c.bytes].concat();
        if rng.chance(1, 2) {
            let after = room - before;
            c.bytes.extend(filling(rng, after));
        }
    }
    c.aux = wrap(rng, &c.bytes.clone());
    if rng.chance(1, 40) {
        // longer than any frame
        let n = rng.usize(600);
        c.bytes.extend(filling(rng, n));
    }
    c
}

/// Well-formed records and fillers, at most `n` bytes of them.
fn filling(rng: &mut Rng, n: usize) -> Vec<u8> {
    let one: &[u8] = *rng.pick(&[&[0x01u8, 0x13, 0x05][..], &[0x00, 0x13], &[0x2F], &[0x04, 0x05, 1, 2, 3, 4], &[0x09, 0x78, 0x12], &[0x81, 0x40, 0xFD, 0x17, 0x00]]);
    one.repeat(n / one.len())
}

fn features(v: &View, obs: &mut Obs, f: impl Fn(&Rec) -> String) {
    for r in &v.want.records {
        obs.feature(&f(r));
    }
    obs.count(&format!("records:{}", v.source));
}

// ---------------------------------------------------------------- C06

pub struct C06;

fn conserve(v: &View, case: &Case) -> Verdict {
    let bad = |sig: &str, m: String| Err(Fail::new(format!("{}:{sig}", v.source), format!("{}: {m}", where_(v, case))));
    let mut at = 0usize;
    for (i, r) in v.records.iter().enumerate() {
        if r["index"].as_u64() != Some(i as u64) {
            return bad("index", format!("record {i} has index {}", r["index"]));
        }
        let (Some(h), Some(d)) = (unspace(&r["header_hex"]), unspace(&r["data_hex"])) else {
            return bad("hex", format!("record {i} hex fields {} {}", r["header_hex"], r["data_hex"]));
        };
        if h.is_empty() {
            return bad("hex", format!("record {i} has no header"));
        }
        // filler bytes in between
        while at < v.area.len() && v.area[at] & 0x0F == 0x0F && !matches!(v.area[at], 0x0F | 0x1F | 0x7F) {
            at += 1;
        }
        let bytes: Vec<u8> = h.iter().chain(&d).copied().collect();
        if v.area.get(at..at + bytes.len()) != Some(&bytes[..]) {
            return bad("bytes", format!("record {i} claims {} which is not at offset {at}", hex(&bytes)));
        }
        at += bytes.len();
    }
    if v.source == "strict" && v.error.is_some() {
        return Ok(());
    }
    match v.error {
        None => {
            if v.area[at..].iter().any(|b| b & 0x0F != 0x0F || matches!(b, 0x0F | 0x1F | 0x7F)) {
                return bad("lost", format!("bytes from offset {at} are in no record"));
            }
        }
        Some(o) => {
            let Some(o) = o else { return bad("offset", "no offset".into()) };
            while at < o && v.area[at] & 0x0F == 0x0F && !matches!(v.area[at], 0x0F | 0x1F | 0x7F) {
                at += 1;
            }
            if at != o {
                return bad("offset", format!("records end at {at}, remainder said to start at {o}"));
            }
        }
    }
    Ok(())
}

fn segmentation(v: &View, case: &Case) -> Verdict {
    let bad = |sig: &str, m: String| Err(Fail::new(format!("{}:{sig}", v.source), format!("{}: {m}", where_(v, case))));
    if v.error.is_some() != v.want.error.is_some() {
        return bad("extent", format!("expected defect {:?}, got {:?}", v.want.error, v.error));
    }
    if v.source == "strict" && v.error.is_some() {
        return Ok(());
    }
    for (i, (w, g)) in v.want.records.iter().zip(&v.records).enumerate() {
        let wj = record::record_json(i, w, &v.area);
        for k in ["header_hex", "data_hex"] {
            if wj[k] != g[k] {
                return bad(k, format!("record {i}: expected {}, got {}", wj[k], g[k]));
            }
        }
    }
    if v.want.records.len() != v.records.len() {
        return bad("count", format!("expected {} records, got {}", v.want.records.len(), v.records.len()));
    }
    Ok(())
}

impl Monitor for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "distinct record shapes (DIF, number of DIFEs, VIF, number of VIFEs, plaintext length, coding, data length) and (record count, filler count, defect) tuples of observed areas"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(30_000, 150_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut area = gen::gen_records(rng, 200, PLAIN);
        if idx % 4 == 3 {
            gen::mutate(rng, &mut area);
        }
        let mut c = case_of(if idx % 2 == 0 { "prefixes" } else { "whole" }, area, rng);
        c.nums = vec![rng.u64() as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let one = |c: &Case, obs: &mut Obs| -> Verdict {
            for v in views(c, obs)? {
                conserve(&v, c)?;
                segmentation(&v, c)?;
                features(&v, obs, |r| {
                    format!(
                        "{:02X} {} {:?} {} {:?} {} {}",
                        v.area[r.start],
                        r.difes,
                        r.vif,
                        r.vifes.len(),
                        r.plain.as_ref().map(Vec::len),
                        r.coding,
                        r.end - r.start - r.header
                    )
                });
                obs.feature(&format!("{} {} {:?}", v.want.records.len(), v.want.skipped.len(), v.want.error));
            }
            // typed records occupy the same bytes
            let low = low_records(&c.bytes)?;
            let want = record::parse(&c.bytes, false, PLAIN);
            obs.eval();
            let oks: Vec<&LowRec> = low.items.iter().filter_map(|x| x.as_ref().ok()).collect();
            if oks.len() != want.records.len() {
                return Err(Fail::new(
                    "typed:count",
                    format!("{}: expected {} records, got {}", hex(&c.bytes), want.records.len(), oks.len()),
                ));
            }
            for (g, w) in oks.iter().zip(&want.records) {
                if g.raw != c.bytes[w.start..w.end] || g.size != w.end - w.start {
                    return Err(Fail::new(
                        "typed:bytes",
                        format!("{}: expected {}..{}, got size {} raw {}", hex(&c.bytes), w.start, w.end, g.size, hex(&g.raw)),
                    ));
                }
            }
            Ok(())
        };
        one(case, obs)?;
        if case.kind == "prefixes" {
            let mut rng = Rng::new(case.nums.first().copied().unwrap_or(0) as u64);
            for n in 0..case.bytes.len() {
                let area = case.bytes[..n].to_vec();
                let mut c = Case::bytes("prefix", area);
                if n % 4 == 0 {
                    c.aux = wrap(&mut rng, &c.bytes.clone());
                }
                one(&c, obs)?;
                obs.count("prefixes");
            }
        }
        obs.sample(|| format!("{}: {} records", hex(&case.bytes), record::parse(&case.bytes, false, PLAIN).records.len()));
        Ok(())
    }
}

// ---------------------------------------------------------------- C07

pub struct C07;

impl Monitor for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "distinct (DIF, number of DIFEs, storage number, tariff, sub-unit) tuples of observed records"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(256 * 11 * 60, 256 * 11 * 300)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let dif = idx as u8;
        let mut n = ((idx / 256) % 12) as usize;
        let mut area = vec![dif & 0x7F];
        if dif & 0x80 != 0 && n == 0 {
            n = 1;
        }
        for _ in 0..n {
            *area.last_mut().unwrap() |= 0x80;
            area.push(match rng.below(6) {
                0 => 0x7F,
                1 => 0x00,
                2 => 1 << rng.below(7),
                _ => rng.u8() & 0x7F,
            });
        }
        let first = area[0];
        if first & 0x0F != 0x0F {
            let vif = *rng.pick(&[0x13u8, 0x05, 0x2B, 0x6C, 0x6D, 0x78, 0x5A]);
            area.push(vif);
            area.extend(match first & 0x0F {
                0x0D => {
                    let k = rng.usize(5);
                    let mut v = vec![k as u8];
                    v.extend((0..k).map(|_| b'a' + rng.below(26) as u8));
                    v
                }
                0x9..=0xC | 0xE => gen::bcd_bytes(rng, gen::dif_len(first).unwrap()),
                0x5 => 1.5f32.to_le_bytes().to_vec(),
                _ => {
                    let k = gen::dif_len(first).unwrap_or(0);
                    gen::gen_datetime(rng, k)
                }
            });
        }
        // a second record shows that nothing leaks from one block into the next
        area.extend_from_slice(&[0x01, 0x13, rng.u8()]);
        case_of("dib", area, rng)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        for v in views(case, obs)? {
            each(&v, |_, w, g, wj| {
                for k in ["function", "storage_number", "tariff", "subunit", "data_coding"] {
                    field(k, &v, case, &wj, g)?;
                }
                obs.feature(&format!("{:02X} {} {} {} {}", v.area[w.start], w.difes, w.storage, w.tariff, w.subunit));
                Ok(())
            })?;
            if v.error.is_some() != v.want.error.is_some() {
                return Err(Fail::new(
                    format!("{}:outcome", v.source),
                    format!("{}: expected {:?}, got {:?}", where_(&v, case), v.want.error, v.error),
                ));
            }
            if v.error.is_none() && v.records.len() != v.want.records.len() {
                return Err(Fail::new(format!("{}:count", v.source), where_(&v, case)));
            }
        }
        let low = low_records(&case.bytes)?;
        let want = record::parse(&case.bytes, false, PLAIN);
        for (g, w) in low.items.iter().filter_map(|x| x.as_ref().ok()).zip(&want.records) {
            obs.eval();
            if w.vif.is_none() {
                continue;
            }
            let got = (g.storage, g.tariff, g.device);
            if got != (Some(w.storage), Some(w.tariff), Some(w.subunit)) {
                return Err(Fail::new(
                    "typed:numbers",
                    format!("{}: expected {} {} {}, got {got:?}", hex(&case.bytes), w.storage, w.tariff, w.subunit),
                ));
            }
            let f = match w.function {
                "Instantaneous value" => "Inst",
                "Maximum value" => "Max",
                "Minimum value" => "Min",
                _ => "Value During Error State",
            };
            if g.function.as_deref() != Some(f) {
                return Err(Fail::new(
                    "typed:function",
                    format!("{}: expected {f}, got {:?}", hex(&case.bytes), g.function),
                ));
            }
        }
        obs.sample(|| {
            let r = &want.records.first();
            format!("{} -> {:?}", hex(&case.bytes), r.map(|r| (r.function, r.storage, r.tariff, r.subunit, r.coding)))
        });
        Ok(())
    }
}

// ---------------------------------------------------------------- C08

pub struct C08;

/// VIBs with known scale behaviour, covering every power of ten and additive corrections.
fn scale_vib(rng: &mut Rng) -> Vec<u8> {
    let mut v = match rng.below(8) {
        0..=3 => vec![rng.below(0x6C) as u8],
        4 => vec![0xFD, 0x40 + rng.below(32) as u8],
        5 => vec![0xFB, *rng.pick(&[0u8, 1, 2, 5, 8, 9, 0x0C, 0x0F, 0x10, 0x19, 0x1A, 0x21, 0x2C, 0x31, 0x68, 0x74, 0x7F])],
        6 => vec![0x78 + rng.below(3) as u8],
        _ => vec![0xFD, rng.below(0x40) as u8],
    };
    let n = match rng.below(6) {
        0..=2 => 0,
        3 => 1,
        4 => 2,
        _ => 1 + rng.usize(6),
    };
    for _ in 0..n {
        *v.last_mut().unwrap() |= 0x80;
        let b = match rng.below(6) {
            0..=1 => 0x70 + rng.below(8) as u8,
            2..=3 => 0x78 + rng.below(4) as u8,
            4 => *rng.pick(&[0x7Du8, 0x30, 0x31, 0x32, 0x7D, 0x7F, 0x7E]),
            _ => rng.below(0x80) as u8,
        };
        v.push(b);
    }
    v
}

/// A negative number whose additive correction cancels it, but for a few of its digits.
fn cancelling(rng: &mut Rng) -> Vec<u8> {
    let (k, o) = (rng.usize(5), rng.usize(4));
    let mut r = vec![0x0D, 0x90 + rng.below(2) as u8];
    let mut digits = 3 + o + 6 * k - usize::from(r[1] & 1);
    for _ in 0..k {
        let up = rng.usize(3);
        r.push(0xF0 + up as u8);
        digits -= up.min(digits);
    }
    r.push(0x78 + o as u8);
    let mut value = -10i128.pow(digits as u32);
    for _ in 0..rng.below(3) {
        value += *rng.pick(&[1i128, -1, 1, -1, 9, 10, -10]) * 10i128.pow(rng.usize(digits + 1) as u32);
    }
    let bytes = value.to_le_bytes();
    let least = (1..=16).find(|&n| bytes[n..].iter().all(|b| *b == if bytes[n - 1] & 0x80 != 0 { 0xFF } else { 0 })).unwrap_or(16);
    let n = least + rng.usize(17 - least);
    r.push(if n == 16 { 0xF0 } else { 0xE0 + n as u8 });
    r.extend(&bytes[..n]);
    r
}

pub fn number_record(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 25) {
        return cancelling(rng);
    }
    let mut r = vec![];
    let vib = scale_vib(rng);
    let coding = *rng.pick(&[1u8, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 13, 13, 13]);
    r.push(coding | (rng.below(4) as u8) << 4);
    r.extend(&vib);
    match coding {
        13 => {
            let (l, n, bcd) = match rng.below(8) {
                0..=1 => {
                    let n = rng.usize(10);
                    (0xC0 + n, n, true)
                }
                2 => {
                    let n = rng.usize(10);
                    (0xD0 + n, n, true)
                }
                3..=5 => {
                    let n = rng.usize(16);
                    (0xE0 + n, n, false)
                }
                _ => {
                    let k = rng.usize(7);
                    (0xF0 + k, [16, 20, 24, 28, 32, 48, 64][k], false)
                }
            };
            r.push(l as u8);
            r.extend(if bcd { bcd_edge(rng, n) } else { gen::edge_int(rng, n) });
        }
        5 => r.extend(gen::edge_real(rng)),
        9..=12 | 14 => {
            let n = gen::dif_len(coding).unwrap();
            r.extend(bcd_edge(rng, n));
        }
        c => r.extend(gen::edge_int(rng, gen::dif_len(c).unwrap())),
    }
    r
}

fn bcd_edge(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![0; n],
        1 => vec![0x99; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = rng.usize(n);
                v[i] = *rng.pick(&[0x01u8, 0x10, 0x90, 0x09]);
            }
            v
        }
        3 => {
            let mut v = gen::bcd_bytes(rng, n);
            if n > 0 {
                let i = rng.usize(n);
                v[i] = if rng.chance(1, 2) { v[i] & 0xF0 | 0x0A } else { 0xA0 + ((rng.below(6) as u8) << 4) | (v[i] & 0x0F) };
            }
            v
        }
        _ => gen::bcd_bytes(rng, n),
    }
}

impl Monitor for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "distinct (coding, data length, sign, digits, scale, additive correction, reported value) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(400_000, 2_500_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let area = number_record(rng);
        if idx % 3 == 0 {
            let mut c = Case::bytes("number", area.clone());
            // most significant byte first applies to the BCD fields of CI 76
            let mut a = vec![if rng.chance(1, 3) { 0x76 } else { 0x72 }];
            a.extend(gen::long_header(rng, 0));
            a.extend(&area);
            c.aux = gen::wired(0x08, 1, &a);
            c
        } else {
            case_of("number", area, rng)
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        for v in views(case, obs)? {
            each(&v, |_, w, g, wj| {
                if matches!(w.value, Val::Number(_) | Val::Float(_)) {
                    field("value", &v, case, &wj, g)?;
                    if let (Val::Number(s), Some(vib)) = (&w.value, &w.vib) {
                        obs.feature(&format!("{} {} {s} {} {:?}", w.coding, w.end - w.start - w.header, vib.scale, vib.offset));
                        check_decimal(s, vib.scale, vib.offset, &g["value"]["value"], case)?;
                    } else {
                        obs.feature(&g["value"].to_string());
                    }
                }
                Ok(())
            })?;
            // digits above nine never become a number
            if v.want.error.is_some() && v.error.is_none() && v.records.len() > v.want.records.len() {
                return Err(Fail::new(
                    format!("{}:invented", v.source),
                    format!("{}: malformed number reported as {}", where_(&v, case), v.records[v.want.records.len()]["value"]),
                ));
            }
            // a well formed number is never lost
            if v.want.error.is_none() && v.records.len() < v.want.records.len() {
                return Err(Fail::new(
                    format!("{}:missing", v.source),
                    format!("{}: expected {} records, got {}", where_(&v, case), v.want.records.len(), v.records.len()),
                ));
            }
        }
        obs.sample(|| {
            let p = record::parse(&case.bytes, false, PLAIN);
            format!("{} -> {:?}", hex(&case.bytes), p.records.first().map(record::value_json))
        });
        // the typed number, exact as far as a double is
        let want = record::parse(&case.bytes, false, PLAIN);
        let low = low_records(&case.bytes)?;
        for (g, w) in low.items.iter().filter_map(|x| x.as_ref().ok()).zip(&want.records) {
            let n = match &w.value {
                Val::Number(s) => s.parse::<f64>().unwrap_or(f64::NAN),
                Val::Float(x) => f64::from(*x),
                _ => continue,
            };
            obs.eval();
            obs.count("typed numbers");
            let same = g.number.is_some_and(|g| {
                g == n || g.is_nan() && n.is_nan() || n.is_finite() && n.abs() > 9007199254740992.0 && (g - n).abs() <= n.abs() * 1e-12
            });
            if !same {
                return Err(Fail::new("typed:number", format!("{}: expected {n}, got {}", hex(&case.bytes), g.value)));
            }
        }
        Ok(())
    }
}

/// Second opinion with 128-bit integers where it fits.
fn check_decimal(sig: &str, scale: i64, offset: Option<i64>, got: &Value, case: &Case) -> Verdict {
    let Ok(n) = sig.parse::<i128>() else { return Ok(()) };
    if n.unsigned_abs() > 10u128.pow(18) {
        return Ok(());
    }
    let lo = offset.map_or(scale, |o| o.min(scale)).min(0);
    if scale - lo > 15 || offset.is_some_and(|o| o - lo > 15) {
        return Ok(());
    }
    let want = n * 10i128.pow((scale - lo) as u32) + offset.map_or(0, |o| 10i128.pow((o - lo) as u32));
    let text = got.as_str().unwrap_or("");
    let (neg, t) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let (int, frac) = t.split_once('.').unwrap_or((t, ""));
    let canonical = !int.is_empty()
        && int.bytes().all(|c| c.is_ascii_digit())
        && frac.bytes().all(|c| c.is_ascii_digit())
        && (int == "0" || !int.starts_with('0'))
        && !frac.ends_with('0')
        && (t.contains('.') != frac.is_empty())
        && !(neg && want == 0);
    let places = (-lo) as usize;
    let parsed = if frac.len() <= places {
        format!("{int}{frac}{}", "0".repeat(places - frac.len())).parse::<i128>().ok()
    } else {
        None
    };
    let value = parsed.map(|p| if neg { -p } else { p });
    if canonical && value == Some(want) {
        return Ok(());
    }
    Err(Fail::new(
        "decimal",
        format!("{}: {sig}e{scale} + {offset:?} reported as {got}", hex(&case.bytes)),
    ))
}

// ---------------------------------------------------------------- C09

pub struct C09;

const C09_ENUM: u64 = 128 * 4 + 128 * 128 + 128 * 128 + 128 * 128 + 128 * 2;

fn vib_case(idx: u64, rng: &mut Rng) -> Vec<u8> {
    let mut i = idx;
    let c = |x: u64| (x % 128) as u8;
    if i < 128 {
        return vec![c(i)];
    }
    i -= 128;
    if i < 128 {
        return vec![0xFD, c(i)];
    }
    i -= 128;
    if i < 128 {
        return vec![0xFB, c(i)];
    }
    i -= 128;
    if i < 128 {
        return vec![0xFD, 0xFD, c(i)];
    }
    i -= 128;
    // every code with every combinable extension
    if i < 128 * 128 {
        return vec![c(i / 128) | 0x80, c(i)];
    }
    i -= 128 * 128;
    if i < 128 * 128 {
        return vec![0xFD, c(i / 128) | 0x80, c(i)];
    }
    i -= 128 * 128;
    if i < 128 * 128 {
        return vec![0xFB, c(i / 128) | 0x80, c(i)];
    }
    i -= 128 * 128;
    if i < 128 {
        return vec![0x93, 0xFC, c(i)];
    }
    i -= 128;
    if i < 128 {
        return vec![0x93, 0xFC, c(i) | 0x80, 0x3B];
    }
    // chains of extensions up to and beyond the permitted length
    let mut v = match rng.below(5) {
        0 => vec![0xFD, rng.below(128) as u8],
        1 => vec![0xFB, rng.below(128) as u8],
        2 => vec![0xFD, 0xFD, rng.below(128) as u8],
        _ => vec![rng.below(0x7B) as u8],
    };
    let n = if rng.chance(1, 4) { rng.usize(14) } else { rng.usize(5) };
    for _ in 0..n {
        *v.last_mut().unwrap() |= 0x80;
        if rng.chance(1, 6) {
            v.push(0xFC);
        }
        v.push(rng.below(128) as u8);
    }
    v
}

impl Monitor for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "distinct value information blocks (complete VIF and VIFE byte strings) whose labels, unit and scale were compared"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the EN 13757-3 tables are those written down in harness/src/model/vif.rs; where the repository's own tests fix a deviating reading the table follows the tests"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        C09_ENUM + tier.pick(300_000, 1_500_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut area = vec![if idx % 5 == 0 { 0x0C } else { 0x07 }];
        let vib = vib_case(idx, rng);
        area.extend(&vib);
        if vib[0] & 0x7F == 0x7C && (vib[0] & 0x80 != 0 || PLAIN) {
            // plaintext unit
            if PLAIN {
                area.splice(2..2, [3, b'a', b'b', b'c']);
            } else {
                area.extend_from_slice(&[3, b'a', b'b', b'c']);
            }
        }
        area.extend(if area[0] == 0x0C { gen::bcd_bytes(rng, 4) } else { vec![0x39, 0x30, 0, 0, 0, 0, 0, 0] });
        let mut c = case_of("vib", area, rng);
        if idx % 4 != 0 {
            c.aux.clear();
        }
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        for v in views(case, obs)? {
            if v.error.is_some() != v.want.error.is_some() {
                return Err(Fail::new(
                    format!("{}:outcome", v.source),
                    format!("{}: expected {:?}, got {:?}", where_(&v, case), v.want.error, v.error),
                ));
            }
            each(&v, |_, w, g, wj| {
                for k in ["quantities", "unit"] {
                    field(k, &v, case, &wj, g)?;
                }
                // the scale shows in the reported value
                field("value", &v, case, &wj, g)?;
                let vib: Vec<u8> = v.area[w.start + 1 + w.difes..w.start + w.header].to_vec();
                obs.feature(&hex(&vib));
                obs.sample(|| format!("{} -> {} {} {}", hex(&vib), g["quantities"], g["unit"], g["value"]));
                Ok(())
            })?;
        }
        let low = low_records(&case.bytes)?;
        let want = record::parse(&case.bytes, false, PLAIN);
        for (g, w) in low.items.iter().filter_map(|x| x.as_ref().ok()).zip(&want.records) {
            obs.eval();
            let Some(vib) = &w.vib else { continue };
            let units: Vec<(String, i32)> = vib.units.iter().map(|(n, e)| (n.to_string(), *e)).collect();
            if g.labels != vib.labels {
                return Err(Fail::new("typed:labels", format!("{}: expected {:?}, got {:?}", hex(&case.bytes), vib.labels, g.labels)));
            }
            if g.units != units {
                return Err(Fail::new("typed:units", format!("{}: expected {units:?}, got {:?}", hex(&case.bytes), g.units)));
            }
            if g.scale != vib.scale {
                return Err(Fail::new("typed:scale", format!("{}: expected {}, got {}", hex(&case.bytes), vib.scale, g.scale)));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C10

pub struct C10;

impl Monitor for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "distinct (coding, reported temporal value) pairs; all 65536 type G values are enumerated"
    }
    fn cases(&self, tier: Tier) -> u64 {
        65_536 + tier.pick(300_000, 1_500_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx < 65_536 {
            let mut c = Case::bytes("type-g", vec![0x02, 0x6C, idx as u8, (idx >> 8) as u8]);
            if idx % 8 == 0 {
                c.aux = wrap(rng, &c.bytes.clone());
            }
            return c;
        }
        let dif = *rng.pick(&[2u8, 3, 4, 4, 4, 6, 6, 6, 1, 7, 0x0C, 0x0E, 0x0A, 0x05, 0x0D]);
        let vif = *rng.pick(&[0x6Cu8, 0x6D, 0x6D, 0x6D]);
        let mut area = vec![dif | (rng.below(4) as u8) << 4 | (rng.below(2) as u8) << 6, vif];
        for _ in 0..rng.usize(3) {
            *area.last_mut().unwrap() |= 0x80;
            area.push(if rng.chance(1, 2) {
                rng.u8() & 0x7F
            } else {
                *rng.pick(&[0x39u8, 0x42, 0x4A, 0x6A, 0x6B, 0x7E, 0x3B, 0x12, 0x70, 0x78])
            });
        }
        area.extend(match dif {
            0x0D => gen::gen_lvar(rng),
            0x0C | 0x0E | 0x0A => gen::bcd_bytes(rng, gen::dif_len(dif).unwrap()),
            d => {
                let n = gen::dif_len(d).unwrap();
                if rng.chance(2, 3) {
                    gen::gen_datetime(rng, n)
                } else {
                    rng.bytes(n)
                }
            }
        });
        if rng.chance(1, 20) {
            area.pop();
        }
        case_of("time-point", area, rng)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        for v in views(case, obs)? {
            if v.error.is_some() != v.want.error.is_some() {
                return Err(Fail::new(
                    format!("{}:outcome", v.source),
                    format!("{}: expected {:?}, got {:?}", where_(&v, case), v.want.error, v.error),
                ));
            }
            each(&v, |_, w, g, wj| {
                field("value", &v, case, &wj, g)?;
                field("data_coding", &v, case, &wj, g)?;
                obs.feature(&format!("{} {}", w.coding, g["value"]));
                if matches!(w.value, Val::Date { .. } | Val::Time { .. } | Val::DateTime { .. }) {
                    obs.count(w.coding);
                    obs.sample(|| format!("{} -> {}", hex(&v.area), g["value"]));
                }
                Ok(())
            })?;
        }
        // typed fields
        let want = record::parse(&case.bytes, false, PLAIN);
        let low = low_records(&case.bytes)?;
        for (g, w) in low.items.iter().filter_map(|x| x.as_ref().ok()).zip(&want.records) {
            if let Some(e) = typed_temporal(&w.value) {
                obs.eval();
                if g.value != e {
                    return Err(Fail::new("typed:value", format!("{}: expected {e}, got {}", hex(&case.bytes), g.value)));
                }
            }
        }
        Ok(())
    }
}

fn tf(f: record::Field) -> String {
    match f {
        record::Field::One(v) => format!("Single({v})"),
        record::Field::Every => "Every".into(),
        record::Field::Invalid => "Invalid".into(),
    }
}

fn tm(f: record::Field) -> String {
    match f {
        record::Field::One(v) => format!("Single({})", record::MONTHS[usize::from(v) - 1]),
        f => tf(f),
    }
}

pub fn typed_temporal(v: &Val) -> Option<String> {
    Some(match v {
        Val::Date { day, month, year } => format!("Some(Date({}, {}, {}))", tf(*day), tm(*month), tf(*year)),
        Val::Time { second, minute, hour } => format!("Some(Time({}, {}, {}))", tf(*second), tf(*minute), tf(*hour)),
        Val::DateTime { day, month, year, hour, minute, second } => match second {
            None => format!(
                "Some(DateTime({}, {}, {}, {}, {}))",
                tf(*day),
                tm(*month),
                tf(*year),
                tf(*hour),
                tf(*minute)
            ),
            Some(s) => format!(
                "Some(DateTimeWithSeconds({}, {}, {}, {}, {}, {}))",
                tf(*day),
                tm(*month),
                tf(*year),
                tf(*hour),
                tf(*minute),
                tf(*s)
            ),
        },
        _ => return None,
    })
}

// ---------------------------------------------------------------- C11

pub struct C11;

impl Monitor for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "distinct (text length, reported text) and (plaintext unit, number of extensions, position) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(150_000, 1_200_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx % 3 < 2 {
            let n = if idx < 192 * 12 { (idx / 12) as usize } else if rng.chance(1, 3) { rng.usize(192) } else { rng.usize(20) };
            let mut area = vec![0x0D | (rng.below(4) as u8) << 4];
            area.extend(match rng.below(5) {
                0 => vec![0xFD, rng.below(0x80) as u8 & 0x7F],
                1 => vec![0x78],
                2 => vec![0x13, ],
                3 => vec![0x93, 0x3B],
                _ => vec![0x79],
            });
            area.push(n as u8);
            if idx < 256 * 3 && n > 0 {
                // every byte value appears
                area.extend((0..n).map(|k| (idx / 3) as u8 ^ if k == 0 { 0 } else { 0x41 }));
            } else {
                area.extend(gen::text_bytes(rng, n));
            }
            // what follows must not be swallowed
            area.extend_from_slice(&[0x01, 0x13, rng.u8()]);
            if rng.chance(1, 15) {
                let k = 1 + rng.usize(8);
                let m = area.len().saturating_sub(k).max(1);
                area.truncate(m);
            }
            case_of("text", area, rng)
        } else {
            let ext = rng.usize(4);
            let n = match rng.below(12) {
                0 => 9,
                1 => 10 + rng.usize(3),
                2 => 0,
                _ => rng.usize(10),
            };
            let t: Vec<u8> = match rng.below(4) {
                0 => rng.bytes(n),
                1 => (0..n).map(|_| *rng.pick(b"\"<>&[]{}|;\n\0%")).collect(),
                _ => (0..n).map(|_| 0x20 + rng.below(0x5F) as u8).collect(),
            };
            let mut area = vec![*rng.pick(&[0x04u8, 0x02, 0x0C, 0x01, 0x07, 0x00]), 0x7C];
            let vifes: Vec<u8> = (0..ext)
                .map(|i| rng.pick(gen::VIFE_COMMON) | if i + 1 < ext { 0x80 } else { 0 })
                .collect();
            if ext > 0 || PLAIN && rng.chance(1, 2) && ext > 0 {
                area[1] |= 0x80;
            }
            if PLAIN {
                area.push(n as u8);
                area.extend(&t);
                area.extend(&vifes);
            } else {
                area.extend(&vifes);
                if ext > 0 {
                    area.push(n as u8);
                    area.extend(&t);
                }
            }
            // a unit announced without extensions follows the VIF at once
            let bare = ext == 0 && !PLAIN && rng.chance(1, 2);
            if bare {
                if area[0] == 0x0C {
                    area[0] = 0x06;
                }
                area.push(n.min(9) as u8);
                area.extend(&t[..n.min(9)]);
            }
            let k = gen::dif_len(area[0]).unwrap();
            area.extend(gen::bcd_bytes(rng, k));
            area.extend_from_slice(&[0x01, 0x13, rng.u8()]);
            if bare {
                return Case::bytes("bare", area);
            }
            if rng.chance(1, 15) {
                let m = 1 + rng.usize(area.len());
                area.truncate(m);
            }
            case_of("unit", area, rng)
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        if case.kind == "bare" {
            let want = record::parse(&case.bytes, false, true);
            let low = low_records(&case.bytes)?;
            obs.eval();
            obs.count("units without extensions");
            let (Some(w), Some(Ok(g))) = (want.records.first(), low.items.first()) else {
                return Err(Fail::new("bare:unread", format!("{}: no record", hex(&case.bytes))));
            };
            let p: Option<String> = w.plain.as_ref().map(|b| b.iter().map(|x| *x as char).collect());
            if g.plain == p && g.size == w.end {
                return Ok(());
            }
            let skipped = g.plain.is_none() && g.size == 2 + gen::dif_len(case.bytes[0]).unwrap();
            return Err(Fail::new(
                if skipped { "unit-without-extension" } else { "bare:unit" },
                format!("{}: expected {p:?} and {} bytes, got {:?} and {}", hex(&case.bytes), w.end, g.plain, g.size),
            ));
        }
        for v in views(case, obs)? {
            if v.error.is_some() != v.want.error.is_some() {
                return Err(Fail::new(
                    format!("{}:outcome", v.source),
                    format!("{}: expected {:?}, got {:?}", where_(&v, case), v.want.error, v.error),
                ));
            }
            segmentation(&v, case)?;
            each(&v, |_, w, g, wj| {
                if matches!(w.value, Val::Text(_)) {
                    field("value", &v, case, &wj, g)?;
                    obs.feature(&g["value"].to_string());
                    obs.sample(|| format!("{} -> {}", hex(&v.area), g["value"]));
                }
                if w.plain.is_some() {
                    for k in ["value", "quantities", "unit"] {
                        field(k, &v, case, &wj, g)?;
                    }
                }
                Ok(())
            })?;
        }
        let want = record::parse(&case.bytes, false, PLAIN);
        let low = low_records(&case.bytes)?;
        for (g, w) in low.items.iter().filter_map(|x| x.as_ref().ok()).zip(&want.records) {
            obs.eval();
            let p: Option<String> = w.plain.as_ref().map(|b| b.iter().map(|x| *x as char).collect());
            if g.plain != p {
                return Err(Fail::new(
                    "typed:plaintext",
                    format!("{}: expected {p:?}, got {:?}", hex(&case.bytes), g.plain),
                ));
            }
            if let Some(p) = p {
                obs.count("plaintext units");
                obs.feature(&format!("unit {p} {}", w.vifes.len()));
            }
        }
        // the same area in the XML rendering and in the byte annotations
        if case.bytes.len() > 230 || !want.records.iter().any(|r| r.plain.is_some() || matches!(r.value, Val::Text(_))) {
            return Ok(());
        }
        let mut user = vec![0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00];
        user.extend_from_slice(&case.bytes);
        let frame = gen::wired(0x08, 0x01, &user);
        let base = 19;
        let shown = render(&frame, None, Fmt::Xml, None, true)?.map_err(|e| Fail::new("xml", format!("{}: {e}", hex(&frame))))?;
        let tree = super::xml::read_xml(&shown).map_err(|e| Fail::new("xml-not-wellformed", format!("{}: {e}", hex(&frame))))?;
        let segments = guard("annotate_frame", || m_bus_parser::annotate::annotate_frame(&frame))?
            .map_err(|e| Fail::new("annotation", format!("{}: {e:?}", hex(&frame))))?;
        for (i, w) in want.records.iter().enumerate() {
            let fields = tree.records.get(i).map(|r| r.1.as_slice()).unwrap_or_default();
            for (name, text) in super::xml::texts(&case.bytes, w) {
                obs.eval();
                obs.count("texts in XML");
                match fields.iter().find(|f| f.0 == name) {
                    Some(f) if f.1 == text => {}
                    f => return Err(Fail::new(format!("xml-{name}"), format!("{}: expected {text:?}, got {f:?}", hex(&frame)))),
                }
            }
            let Some(p) = &w.plain else { continue };
            let start = base + w.start + 1 + w.difes + 1 + if PLAIN { 0 } else { w.vifes.len() };
            let text: String = p.iter().map(|x| *x as char).collect();
            obs.eval();
            obs.count("units in annotations");
            if !segments.iter().any(|s| s.start == start && s.end == start + p.len() + 1 && s.detail.contains(&text)) {
                return Err(Fail::new(
                    "annotated-unit",
                    format!("{}: no segment {start}..{} with {text:?}", hex(&frame), start + p.len() + 1),
                ));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C12

pub struct C12;

/// A malformed record of a given class.
fn defect(class: u64, rng: &mut Rng) -> Vec<u8> {
    match class % 10 {
        0 => vec![0x04, 0x13, 1, 2],                              // missing data
        1 => vec![0x0C, 0x13, 0x1A, 0, 0, 0],                     // digit above nine
        2 => vec![0x0D, 0x13, *rng.pick(&[0xCAu8, 0xCF, 0xDA, 0xDF, 0xF7, 0xFF]), 1, 2, 3], // reserved length
        3 => {
            // too many DIFEs
            let mut v = vec![0x84];
            v.extend(vec![0x80; 11 + rng.usize(4)]);
            v.push(0);
            v.extend_from_slice(&[0x13, 1, 2, 3, 4]);
            v
        }
        4 => {
            // too many VIFEs
            let mut v = vec![0x04, 0x93];
            v.extend(vec![0xBB; 10 + rng.usize(4)]);
            v.push(0x3B);
            v.extend_from_slice(&[1, 2, 3, 4]);
            v
        }
        5 => vec![0x04, 0x6F, 1, 2, 3, 4],                        // reserved VIF
        6 => vec![0x04],                                          // no VIF
        7 => vec![0x0D, 0x78, 20, b'a'],                          // text longer than the data
        8 => vec![0x84, 0x80],                                    // unfinished DIFE chain
        _ => vec![0x04, 0x93, 0xBB],                              // unfinished VIFE chain
    }
}

impl Monitor for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "distinct (number of intact records, defect class or cut position, offset, decode state) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(120_000, 900_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut area = vec![];
        let long = idx % 12 != 10 && rng.chance(1, 8);
        if long {
            // a great many small records
            let n = rng.usize(205);
            while area.len() < n {
                let mut r: Vec<u8> = rng.pick(&[&[0x00u8, 0x13][..], &[0x01, 0x13, 7], &[0x08, 0x5A], &[0x09, 0x78, 0x12], &[0x02, 0xFD, 0x17, 1, 0]]).to_vec();
                if rng.chance(1, 10) {
                    r.push(0x2F);
                }
                area.extend(r);
            }
        }
        // intact records only
        for _ in 0..rng.usize(6) {
            for _ in 0..8 {
                let r = gen::gen_record(rng, PLAIN);
                let p = record::parse(&r, false, PLAIN);
                if p.error.is_none() && p.records.len() == 1 && p.records[0].end == r.len() && area.len() + r.len() < (if long { 205 } else { 170 }) {
                    area.extend(r);
                    break;
                }
            }
            if rng.chance(1, 5) {
                area.push(*rng.pick(&[0x2Fu8, 0x2F, 0x3F, 0x6F]));
            }
        }
        let mut c = Case::bytes("", area);
        let class = idx % 12;
        c.nums = vec![class as i64, rng.u64() as i64];
        c.kind = if class < 10 {
            "defect".into()
        } else if class == 10 {
            "cuts".into()
        } else {
            "intact".into()
        };
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let mut rng = Rng::new(case.nums[1] as u64);
        let good = &case.bytes;
        let class = case.nums[0] as u64;
        let mut areas: Vec<Vec<u8>> = vec![];
        match case.kind.as_str() {
            "defect" => {
                let mut a = good.clone();
                a.extend(defect(class, &mut rng));
                areas.push(a);
            }
            "cuts" => areas.extend((0..=good.len()).map(|n| good[..n].to_vec())),
            _ => areas.push(good.clone()),
        }
        // the records without the tail, as the library reports them
        let base = match guard("decode_data_records", || output::decode_data_records(good))? {
            Ok(r) => serde_json::to_value(&r).unwrap_or_default(),
            Err(e) if good.is_empty() && e.code() == "input.empty" => json!([]),
            Err(e) => return Err(Fail::new("intact-rejected", format!("{}: {e}", hex(good)))),
        };
        let base = base.as_array().cloned().unwrap_or_default();
        for area in areas {
            let mut c = Case::bytes(&case.kind, area);
            if rng.chance(1, 4) {
                // inside an encrypted telegram
                let key: [u8; 16] = rng.arr();
                let mut app = vec![0x72];
                let h = gen::long_header(&mut rng, 0x0500);
                let iv = model::iv5(u16::from_le_bytes([h[4], h[5]]), model::bcd_id(&h[..4]).unwrap(), h[6], h[7], h[8]);
                app.extend(h);
                app.extend(model::aes::cbc_encrypt(&key, iv, &c.bytes));
                c.aux = gen::wired(8, 1, &app);
                c.key = if cfg!(feature = "decryption") { Some(key) } else { None };
                if c.bytes.is_empty() || c.key.is_none() {
                    c.aux.clear();
                }
            } else {
                c.aux = wrap_records(&mut rng, &c.bytes);
            }
            for v in views(&c, obs)? {
                let bad = |sig: &str, m: String| {
                    Err(Fail::new(format!("{}:{sig}", v.source), format!("{}: {m}", where_(&v, &c))))
                };
                let n = v.want.records.len();
                match v.want.error {
                    Some((o, _)) => {
                        let Some(got) = v.error else {
                            return bad("defect-unreported", format!("defect at {o} not reported"));
                        };
                        if got != Some(o) {
                            return bad("offset", format!("expected offset {o}, got {got:?}"));
                        }
                        if v.source == "strict" {
                            if !v.records.is_empty() {
                                return bad("strict-records", "records beside an error".into());
                            }
                        } else {
                            let doc = v.doc.as_ref().unwrap();
                            if doc["decode_state"] != "partial" {
                                return bad("state", format!("decode state {}", doc["decode_state"]));
                            }
                            let d: Vec<&Value> = doc["diagnostics"]
                                .as_array()
                                .map(|a| a.iter().filter(|d| d["code"] == "application.record_partial").collect())
                                .unwrap_or_default();
                            if d.len() != 1 || d[0]["layer"] != "application" || d[0]["message"].as_str().unwrap_or("").is_empty() {
                                return bad("diagnostic", format!("{:?}", doc["diagnostics"]));
                            }
                        }
                    }
                    None => {
                        if v.error.is_some() {
                            return bad("false-defect", format!("intact records reported defective at {:?}", v.error));
                        }
                        if let Some(doc) = &v.doc {
                            if doc["decode_state"] != "complete" {
                                return bad("state", format!("intact telegram is {}", doc["decode_state"]));
                            }
                        }
                    }
                }
                if v.source == "telegram" || v.want.error.is_none() {
                    if v.records.len() != n {
                        return bad("count", format!("expected {n} records, got {}", v.records.len()));
                    }
                    // exactly as without the tail
                    for (i, (g, b)) in v.records.iter().zip(&base).enumerate() {
                        let w = &v.want.records[i];
                        if w.end <= good.len() && v.area[..w.end] == good[..w.end] && g != b {
                            // manufacturer data and records up to the cut are compared only when complete
                            if v.area[w.start] != 0x0F && v.area[w.start] != 0x1F {
                                return bad("disturbed", format!("record {i}: {b} became {g}"));
                            }
                        }
                    }
                }
                obs.feature(&format!("{} {class} {} {:?} {}", c.kind, n, v.want.error, v.source));
                obs.count(if v.want.error.is_some() { "with defect" } else { "intact" });
                obs.sample(|| format!("{} -> {} records, defect {:?}", hex(&v.area), n, v.want.error));
            }
        }
        Ok(())
    }
}
