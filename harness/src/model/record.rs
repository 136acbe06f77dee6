//! Reference decoder for data records.

use super::vif::{self, Vib};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Field {
    One(u16),
    Every,
    Invalid,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    None,
    Manufacturer,
    Float(f32),
    /// Exact significand before scaling.
    Number(String),
    Text(String),
    Date { day: Field, month: Field, year: Field },
    Time { second: Field, minute: Field, hour: Field },
    DateTime { day: Field, month: Field, year: Field, hour: Field, minute: Field, second: Option<Field> },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Rec {
    pub start: usize,
    pub end: usize,
    pub header: usize,
    pub function: &'static str,
    pub coding: &'static str,
    pub storage: u64,
    pub tariff: u64,
    pub subunit: u64,
    pub difes: usize,
    pub vif: Option<u8>,
    pub vifes: Vec<u8>,
    pub plain: Option<Vec<u8>>,
    pub vib: Option<Vib>,
    pub value: Val,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Parsed {
    pub records: Vec<Rec>,
    /// Offsets of skipped single bytes.
    pub skipped: Vec<usize>,
    pub error: Option<(usize, &'static str)>,
}

const SHORT: &str = "Data too short";
const LONG: &str = "Data too long";
const INSUFF: &str = "Insufficient data";
const BADVAL: &str = "Invalid value information";
const RESLEN: &str = "Unimplemented feature: Variable length parsing for reserved length values";

pub const MONTHS: [&str; 12] = [
    "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November",
    "December",
];

/// Splits a record area.
pub fn parse(data: &[u8], msb_first: bool, plain_before: bool) -> Parsed {
    let mut p = Parsed {
        records: vec![],
        skipped: vec![],
        error: None,
    };
    let mut at = 0;
    while at < data.len() {
        let dif = data[at];
        if dif & 0x0F == 0x0F {
            match dif {
                0x0F | 0x1F => {
                    p.records.push(special(
                        at,
                        data.len(),
                        if dif == 0x0F { "Manufacturer specific" } else { "More records follow" },
                        Val::Manufacturer,
                        dif,
                    ));
                    at = data.len();
                }
                0x7F => {
                    p.records.push(special(at, at + 1, "Global readout request", Val::None, dif));
                    at += 1;
                }
                _ => {
                    p.skipped.push(at);
                    at += 1;
                }
            }
            continue;
        }
        match one(data, at, msb_first, plain_before) {
            Ok(r) => {
                at = r.end;
                p.records.push(r);
            }
            Err(m) => {
                p.error = Some((at, m));
                break;
            }
        }
    }
    p
}

fn special(start: usize, end: usize, name: &'static str, value: Val, dif: u8) -> Rec {
    Rec {
        start,
        end,
        header: 1,
        function: name,
        coding: name,
        storage: u64::from((dif >> 6) & 1),
        tariff: 0,
        subunit: 0,
        difes: 0,
        vif: None,
        vifes: vec![],
        plain: None,
        vib: None,
        value,
    }
}

fn one(data: &[u8], start: usize, msb_first: bool, plain_before: bool) -> Result<Rec, &'static str> {
    let mut at = start;
    let dif = data[at];
    at += 1;
    let mut storage = u64::from((dif >> 6) & 1);
    let mut tariff = 0u64;
    let mut subunit = 0u64;
    let mut difes = 0usize;
    if dif & 0x80 != 0 {
        let run = data[at..].iter().take_while(|b| **b & 0x80 != 0).count();
        if run + 1 > 11 {
            return Err(LONG);
        }
        if run + 1 > data.len() - at {
            return Err(SHORT);
        }
        difes = run + 1;
        for k in 0..difes {
            let b = data[at + k];
            storage += u64::from(b & 0x0F) << (1 + 4 * k);
            tariff += u64::from((b >> 4) & 3) << (2 * k);
            subunit += u64::from((b >> 6) & 1) << k;
        }
        at += difes;
    }
    // value information block
    let vif = *data.get(at).ok_or(SHORT)?;
    at += 1;
    let plaintext = vif & 0x7F == 0x7C;
    let mut plain = None;
    if plaintext && plain_before {
        let (t, n) = plain_text(data, at)?;
        plain = Some(t);
        at += n;
    }
    let mut vifes = vec![];
    if vif & 0x80 != 0 {
        loop {
            let b = *data.get(at).ok_or(SHORT)?;
            at += 1;
            if vifes.len() == 10 {
                return Err(BADVAL);
            }
            vifes.push(b);
            if b & 0x80 == 0 {
                break;
            }
        }
        if plaintext && !plain_before {
            let (t, n) = plain_text(data, at)?;
            plain = Some(t);
            at += n;
        }
    }
    let vib = vif::interpret(vif, &vifes)?;
    let header = at - start;
    let field = dif & 0x0F;
    let has = |l: &str| vib.labels.iter().any(|x| x == l);
    let rest = &data[at..];
    let need = |n: usize| rest.get(..n).ok_or(INSUFF);
    let (coding, value, size): (&'static str, Val, usize) = match field {
        0x0 => ("No data", Val::None, 0),
        0x8 => ("Selection for readout", Val::None, 0),
        0x2 if has("Date") => {
            let b = need(2)?;
            let (day, month, year) = date(b[0], b[1]);
            ("Date (type G)", Val::Date { day, month, year }, 2)
        }
        0x3 if has("DateTime") => {
            let b = need(3)?;
            (
                "Time (type J)",
                Val::Time {
                    second: sixty(b[0]),
                    minute: sixty(b[1]),
                    hour: hours(b[2]),
                },
                3,
            )
        }
        0x4 if has("DateTime") => {
            let b = need(4)?;
            let (day, month, year) = date(b[2], b[3]);
            let iv = b[0] & 0x80 != 0;
            (
                "Date and time (type F)",
                Val::DateTime {
                    day,
                    month,
                    year,
                    hour: if iv { Field::Invalid } else { hours(b[1]) },
                    minute: if iv { Field::Invalid } else { sixty(b[0]) },
                    second: None,
                },
                4,
            )
        }
        0x6 if has("DateTime") => {
            let b = need(6)?;
            let (day, month, year) = date(b[3], b[4]);
            let iv = b[1] & 0x80 != 0;
            (
                "Date and time (type I)",
                Val::DateTime {
                    day,
                    month,
                    year,
                    hour: if iv { Field::Invalid } else { hours(b[2]) },
                    minute: if iv { Field::Invalid } else { sixty(b[1]) },
                    second: Some(if iv { Field::Invalid } else { sixty(b[0]) }),
                },
                6,
            )
        }
        0x1 => ("8-bit integer", Val::Number(int_le(need(1)?)), 1),
        0x2 => ("16-bit integer", Val::Number(int_le(need(2)?)), 2),
        0x3 => ("24-bit integer", Val::Number(int_le(need(3)?)), 3),
        0x4 => ("32-bit integer", Val::Number(int_le(need(4)?)), 4),
        0x5 => {
            let b = need(4)?;
            ("32-bit real", Val::Float(f32::from_le_bytes([b[0], b[1], b[2], b[3]])), 4)
        }
        0x6 => ("48-bit integer", Val::Number(int_le(need(6)?)), 6),
        0x7 => ("64-bit integer", Val::Number(int_le(need(8)?)), 8),
        0x9 => ("2-digit BCD", Val::Number(bcd(need(1)?, false, msb_first)?), 1),
        0xA => ("4-digit BCD", Val::Number(bcd(need(2)?, false, msb_first)?), 2),
        0xB => ("6-digit BCD", Val::Number(bcd(need(3)?, false, msb_first)?), 3),
        0xC => ("8-digit BCD", Val::Number(bcd(need(4)?, false, msb_first)?), 4),
        0xE => ("12-digit BCD", Val::Number(bcd(need(6)?, false, msb_first)?), 6),
        _ => {
            let lvar = *rest.first().ok_or(INSUFF)?;
            let body = |n: usize| rest.get(1..1 + n).ok_or(INSUFF);
            let (v, n) = match lvar {
                0x00..=0xBF => (Val::Text(text(body(lvar as usize)?)), lvar as usize),
                0xC0..=0xC9 => {
                    let n = (lvar - 0xC0) as usize;
                    (Val::Number(bcd(body(n)?, false, msb_first)?), n)
                }
                0xD0..=0xD9 => {
                    let n = (lvar - 0xD0) as usize;
                    (Val::Number(bcd(body(n)?, true, msb_first)?), n)
                }
                0xE0..=0xEF => {
                    let n = (lvar - 0xE0) as usize;
                    (Val::Number(int_le(body(n)?)), n)
                }
                0xF0..=0xF4 => {
                    let n = 4 * (lvar as usize - 0xEC);
                    (Val::Number(int_le(body(n)?)), n)
                }
                0xF5 => (Val::Number(int_le(body(48)?)), 48),
                0xF6 => (Val::Number(int_le(body(64)?)), 64),
                _ => return Err(RESLEN),
            };
            ("Variable length", v, n + 1)
        }
    };
    Ok(Rec {
        start,
        end: at + size,
        header,
        function: [
            "Instantaneous value",
            "Maximum value",
            "Minimum value",
            "Value during error state",
        ][usize::from((dif >> 4) & 3)],
        coding,
        storage,
        tariff,
        subunit,
        difes,
        vif: Some(vif),
        vifes,
        plain,
        vib: Some(vib),
        value,
    })
}

fn plain_text(data: &[u8], at: usize) -> Result<(Vec<u8>, usize), &'static str> {
    let n = usize::from(*data.get(at).ok_or(SHORT)?);
    let t = data.get(at + 1..at + 1 + n).ok_or(SHORT)?;
    if n > 9 {
        return Err(LONG);
    }
    Ok((t.to_vec(), n + 1))
}

fn date(lo: u8, hi: u8) -> (Field, Field, Field) {
    let d = lo & 0x1F;
    let m = hi & 0x0F;
    let y = u16::from(lo >> 5) + 8 * u16::from(hi >> 4);
    (
        if d == 0 { Field::Every } else { Field::One(u16::from(d)) },
        match m {
            15 => Field::Every,
            1..=12 => Field::One(u16::from(m)),
            _ => Field::Invalid,
        },
        if y == 127 { Field::Every } else { Field::One(y) },
    )
}

fn sixty(b: u8) -> Field {
    match b & 0x3F {
        63 => Field::Every,
        x @ 0..=59 => Field::One(u16::from(x)),
        _ => Field::Invalid,
    }
}

fn hours(b: u8) -> Field {
    match b & 0x1F {
        31 => Field::Every,
        x @ 0..=23 => Field::One(u16::from(x)),
        _ => Field::Invalid,
    }
}

/// Two's complement little endian to decimal by repeated division by ten.
pub fn int_le(b: &[u8]) -> String {
    let neg = b.last().is_some_and(|x| x & 0x80 != 0);
    let mut mag: Vec<u8> = b.to_vec();
    if neg {
        // magnitude = 2^n - value
        let mut borrow = 0i32;
        for x in mag.iter_mut() {
            let v = -(i32::from(*x)) - borrow;
            *x = v.rem_euclid(256) as u8;
            borrow = i32::from(v < 0);
        }
    }
    let mut out = vec![];
    loop {
        let mut rem = 0u32;
        for x in mag.iter_mut().rev() {
            let cur = rem * 256 + u32::from(*x);
            *x = (cur / 10) as u8;
            rem = cur % 10;
        }
        out.push(b'0' + rem as u8);
        if mag.iter().all(|x| *x == 0) {
            break;
        }
    }
    // A magnitude of exactly 2^(n-1) keeps all its bytes, so nothing can overflow here.
    if neg {
        out.push(b'-');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn bcd(b: &[u8], negative: bool, msb_first: bool) -> Result<String, &'static str> {
    let mut digits = String::new();
    let order: Vec<u8> = if msb_first { b.to_vec() } else { b.iter().rev().copied().collect() };
    for x in order {
        for d in [x >> 4, x & 15] {
            if d > 9 {
                return Err(BADVAL);
            }
            digits.push((b'0' + d) as char);
        }
    }
    let t = digits.trim_start_matches('0');
    Ok(if t.is_empty() {
        "0".into()
    } else if negative {
        format!("-{t}")
    } else {
        t.to_string()
    })
}

pub fn text(b: &[u8]) -> String {
    let r: Vec<u8> = b.iter().rev().copied().collect();
    match std::str::from_utf8(&r) {
        Ok(s) => s.to_string(),
        Err(_) => r.iter().map(|x| *x as char).collect(),
    }
}

/// significand * 10^scale (+ 10^offset), as a plain decimal without redundant zeros.
pub fn decimal(significand: &str, scale: i64, offset: Option<i64>) -> String {
    let neg = significand.starts_with('-');
    let lo = offset.map_or(scale, |o| o.min(scale));
    // digit vector, least significant first, at weight 10^lo
    let mut d: Vec<i32> = vec![0; (scale - lo) as usize];
    for c in significand.trim_start_matches('-').bytes().rev() {
        let x = i32::from(c - b'0');
        d.push(if neg { -x } else { x });
    }
    if let Some(o) = offset {
        let i = (o - lo) as usize;
        while d.len() <= i {
            d.push(0);
        }
        d[i] += 1;
    }
    // sign of the whole: sign of the most significant nonzero digit after carrying
    let carry = |d: &mut Vec<i32>, sign: i32| {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * sign + c;
            let r = v.rem_euclid(10);
            c = (v - r) / 10;
            *x = r;
        }
        while c > 0 {
            d.push(c % 10);
            c /= 10;
        }
        c
    };
    let mut t = d.clone();
    let mut negative = false;
    if carry(&mut t, 1) < 0 {
        t = d;
        negative = true;
        carry(&mut t, -1);
    }
    while t.last() == Some(&0) {
        t.pop();
    }
    if t.is_empty() {
        return "0".into();
    }
    let mut s: String = t.iter().rev().map(|x| (b'0' + *x as u8) as char).collect();
    if lo >= 0 {
        s.push_str(&"0".repeat(lo as usize));
    } else {
        let frac = (-lo) as usize;
        while s.len() <= frac {
            s.insert(0, '0');
        }
        let cut = s.len() - frac;
        let (i, f) = s.split_at(cut);
        let f = f.trim_end_matches('0');
        s = if f.is_empty() { i.to_string() } else { format!("{i}.{f}") };
    }
    if negative {
        s.insert(0, '-');
    }
    s
}

fn comp(f: Field) -> Value {
    match f {
        Field::One(v) => json!(v),
        Field::Every => json!("every"),
        Field::Invalid => json!("invalid"),
    }
}

fn comp_month(f: Field) -> Value {
    match f {
        Field::One(v) => json!(MONTHS[usize::from(v) - 1]),
        f => comp(f),
    }
}

fn iso(fields: &[Field]) -> Option<Vec<u16>> {
    fields
        .iter()
        .map(|f| if let Field::One(v) = f { Some(*v) } else { None })
        .collect()
}

pub fn value_json(r: &Rec) -> Value {
    match &r.value {
        Val::None => json!({"kind": "none"}),
        Val::Manufacturer => json!({"kind": "manufacturer_specific"}),
        Val::Float(f) => {
            let v = if f.is_nan() {
                json!("nan")
            } else if f.is_infinite() {
                json!(if *f > 0.0 { "positive_infinity" } else { "negative_infinity" })
            } else {
                json!(f64::from(*f))
            };
            json!({"kind": "float", "value": v})
        }
        Val::Number(s) => {
            let vib = r.vib.as_ref().unwrap();
            json!({"kind": "decimal", "value": decimal(s, vib.scale, vib.offset)})
        }
        Val::Text(t) => json!({"kind": "text", "value": t}),
        Val::Date { day, month, year } => {
            let v = match iso(&[*year, *month, *day]) {
                Some(x) => json!(format!("{:04}-{:02}-{:02}", x[0], x[1], x[2])),
                None => json!({"day": comp(*day), "month": comp_month(*month), "year": comp(*year)}),
            };
            json!({"kind": "date", "value": v})
        }
        Val::Time { second, minute, hour } => {
            let v = match iso(&[*hour, *minute, *second]) {
                Some(x) => json!(format!("{:02}:{:02}:{:02}", x[0], x[1], x[2])),
                None => json!({"hour": comp(*hour), "minute": comp(*minute), "second": comp(*second)}),
            };
            json!({"kind": "time", "value": v})
        }
        Val::DateTime { day, month, year, hour, minute, second } => {
            let s = second.unwrap_or(Field::One(0));
            let v = match iso(&[*year, *month, *day, *hour, *minute, s]) {
                Some(x) => json!(format!(
                    "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
                    x[0], x[1], x[2], x[3], x[4], x[5]
                )),
                None => {
                    let mut o = json!({"day": comp(*day), "month": comp_month(*month), "year": comp(*year),
                        "hour": comp(*hour), "minute": comp(*minute)});
                    if let Some(s) = second {
                        o["second"] = comp(*s);
                    }
                    o
                }
            };
            json!({"kind": "datetime", "value": v})
        }
    }
}

fn spaced(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

pub fn record_json(index: usize, r: &Rec, data: &[u8]) -> Value {
    let mut o = json!({
        "index": index,
        "function": r.function,
        "storage_number": r.storage,
        "tariff": r.tariff,
        "subunit": r.subunit,
        "quantities": r.vib.as_ref().map(|v| v.labels.iter().map(|l| vif::quantity(l)).collect::<Vec<_>>()).unwrap_or_default(),
        "value": value_json(r),
        "data_coding": r.coding,
        "header_hex": spaced(&data[r.start..r.start + r.header]),
        "data_hex": spaced(&data[r.start + r.header..r.end]),
    });
    if let Some(u) = r.vib.as_ref().and_then(|v| vif::unit_string(&v.units)) {
        o["unit"] = json!(u);
    }
    o
}
