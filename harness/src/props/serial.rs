//! C33: serialized values read back as themselves.

use super::common::*;
use crate::engine::*;
use crate::gen;
use m_bus_application_layer::extended_link_layer::*;
use m_bus_core::{ApplicationLayerError, ConfigurationField, DeviceType, Function, IdentificationNumber, ManufacturerCode, SecurityMode};
use m_bus_parser::user_data::data_information::*;
use m_bus_parser::user_data::data_record::*;
use m_bus_parser::user_data::value_information::*;
use m_bus_parser::user_data::variable_user_data::DataRecordError;
use m_bus_parser::user_data::{parse_data_records, ApplicationResetSubcode, Counter, LongTplHeader, StatusField, UserDataBlock};
use m_bus_parser::{Address, FrameError, MbusError, WiredFrame, WirelessFrame};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;

/// Values of error types borrow for ever, so their texts are kept once each.
fn keep(s: String) -> &'static str {
    thread_local!(static KEPT: RefCell<HashSet<&'static str>> = RefCell::default());
    KEPT.with(|k| {
        let mut k = k.borrow_mut();
        if let Some(t) = k.get(s.as_str()) {
            return *t;
        }
        let t: &'static str = Box::leak(s.into_boxed_str());
        k.insert(t);
        t
    })
}

fn name<T>() -> &'static str {
    let n = std::any::type_name::<T>();
    let end = n.find('<').unwrap_or(n.len());
    &n[n[..end].rfind(':').map_or(0, |i| i + 1)..]
}

fn equal<T: Debug + PartialEq>(form: &str, text: &str, v: &T, back: Result<T, String>) -> Verdict {
    match back {
        Ok(b) if b == *v && format!("{b:?}") == format!("{v:?}") => Ok(()),
        Ok(b) => Err(Fail::new(format!("{form}-{}", name::<T>()), format!("{v:?} was written as {text} and read as {b:?}"))),
        Err(e) => Err(Fail::new(format!("{form}-{}", name::<T>()), format!("{v:?} was written as {text}, which is refused: {e}"))),
    }
}

/// Writes and reads a value in two self-describing forms and a positional one.
fn trip<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let fail = |form: &str, e: String| Fail::new(format!("{form}-{}", name::<T>()), format!("{v:?} cannot be written: {e}"));
    let json = guard("to JSON", || serde_json::to_string(v))?.map_err(|e| fail("json", e.to_string()))?;
    equal("json", &json, v, guard("from JSON", || serde_json::from_str::<T>(&json))?.map_err(|e| e.to_string()))?;
    let plain = guard("to binary", || bincode::serialize(v))?.map_err(|e| fail("binary", e.to_string()))?;
    equal("binary", &hex(&plain), v, guard("from binary", || bincode::deserialize::<T>(&plain))?.map_err(|e| e.to_string()))?;
    obs.evals(2);
    if rng.chance(1, 4) {
        let yaml = guard("to YAML", || serde_yaml::to_string(v))?.map_err(|e| fail("yaml", e.to_string()))?;
        equal("yaml", &yaml, v, guard("from YAML", || serde_yaml::from_str::<T>(&yaml))?.map_err(|e| e.to_string()))?;
        obs.eval();
    }
    // a damaged text is refused or read as something that is itself stable
    if rng.chance(1, 4) {
        let mut b = json.clone().into_bytes();
        for _ in 0..1 + rng.usize(3) {
            let i = rng.usize(b.len());
            match rng.below(4) {
                0 => {
                    b.remove(i);
                }
                1 => b.insert(i, *rng.pick(b"[]{},:\"0129nulltrue ")),
                2 => b[i] = *rng.pick(b"[]{},:\"0129-"),
                _ => {
                    let j = i + rng.usize(b.len() - i);
                    let piece = b[i..j].to_vec();
                    b.splice(i..i, piece);
                }
            }
            if b.is_empty() {
                break;
            }
        }
        let text = String::from_utf8_lossy(&b).into_owned();
        obs.eval();
        if let Ok(w) = guard("from damaged JSON", || serde_json::from_str::<T>(&text))? {
            obs.feature(&format!("damaged {}", name::<T>()));
            let again = guard("to JSON", || serde_json::to_string(&w))?.map_err(|e| fail("json", e.to_string()))?;
            equal("damaged", &again, &w, guard("from JSON", || serde_json::from_str::<T>(&again))?.map_err(|e| e.to_string()))?;
        }
    }
    let shape: String = json.chars().filter(|c| c.is_ascii_alphabetic() || "{[,".contains(*c)).take(60).collect();
    obs.feature(&format!("{} {shape}", name::<T>()));
    Ok(())
}

/// The same for error values.
fn error<T: Serialize + serde::Deserialize<'static> + Debug + PartialEq>(v: &T, obs: &mut Obs) -> Verdict {
    let json = guard("to JSON", || serde_json::to_string(v))?.map_err(|e| Fail::new(format!("json-{}", name::<T>()), e.to_string()))?;
    let text = keep(json);
    obs.eval();
    obs.feature(&format!("{} {:?}", name::<T>(), std::mem::discriminant(v)));
    equal("json", text, v, guard("from JSON", || serde_json::from_str::<T>(text))?.map_err(|e| e.to_string()))
}

fn record_error(e: &DataRecordError, obs: &mut Obs) -> Verdict {
    match e {
        DataRecordError::DataInformationError(e) => error(e, obs),
        _ => Ok(()),
    }
}

fn any<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: Option<&SingleEveryOrInvalid<T>>, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    v.map_or(Ok(()), |v| trip(v, rng, obs))
}

fn block(b: &UserDataBlock, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let ell = |e: &Option<ExtendedLinkLayer>, rng: &mut Rng, obs: &mut Obs| {
        let Some(e) = e else { return Ok(()) };
        e.receiver_address.as_ref().map_or(Ok(()), |a| trip(a, rng, obs))?;
        e.encryption.as_ref().map_or(Ok(()), |a| trip(a, rng, obs))?;
        trip(e, rng, obs)
    };
    match b {
        UserDataBlock::ResetAtApplicationLevel { subcode } => trip::<ApplicationResetSubcode>(subcode, rng, obs),
        UserDataBlock::FixedDataStructure { identification_number, status, counter1, counter2, .. } => {
            trip::<IdentificationNumber>(identification_number, rng, obs)?;
            trip::<StatusField>(status, rng, obs)?;
            trip::<Counter>(counter1, rng, obs)?;
            trip::<Counter>(counter2, rng, obs)
        }
        UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header, .. } => {
            ell(extended_link_layer, rng, obs)?;
            trip(&long_tpl_header.short_tpl_header, rng, obs)?;
            // the reader fills in its own manufacturer, as declared
            let json = serde_json::to_string(long_tpl_header).map_err(|e| Fail::new("json-LongTplHeader", e.to_string()))?;
            let mut back = guard("from JSON", || serde_json::from_str::<LongTplHeader>(&json))?.map_err(|e| e.to_string());
            if let Ok(back) = &mut back {
                if back.manufacturer.is_err() {
                    back.manufacturer = long_tpl_header.manufacturer;
                }
            }
            obs.eval();
            if let Ok(m) = &long_tpl_header.manufacturer {
                trip(m, rng, obs)?;
            }
            equal("json", &json, long_tpl_header, back)
        }
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. } => {
            ell(extended_link_layer, rng, obs)?;
            trip(short_tpl_header, rng, obs)
        }
        UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. } => ell(extended_link_layer, rng, obs),
        _ => Ok(()),
    }
}

fn record(r: &DataRecord, rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let h = &r.data_record_header;
    trip(&h.processed_data_record_header, rng, obs)?;
    let raw = &h.raw_data_record_header;
    trip(&raw.data_information_block.data_information_field, rng, obs)?;
    if let Some(v) = &raw.value_information_block {
        trip(v, rng, obs)?;
    }
    if let Some(d) = &raw.data_information_block.data_information_field_extension {
        for e in d.clone() {
            trip(&e, rng, obs)?;
        }
    }
    if let Some(v) = r.value_information() {
        for u in &v.units {
            trip(u, rng, obs)?;
        }
        for l in &v.labels {
            trip(l, rng, obs)?;
        }
    }
    match r.value() {
        Some(DataType::Date(d, m, y)) => {
            any(Some(d), rng, obs)?;
            any(Some(m), rng, obs)?;
            any(Some(y), rng, obs)
        }
        Some(DataType::Time(a, b, c)) => {
            any(Some(a), rng, obs)?;
            any(Some(b), rng, obs)?;
            any(Some(c), rng, obs)
        }
        _ => Ok(()),
    }
}

pub struct C33;

impl Monitor for C33 {
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> &'static str {
        "distinct (type, shape of its serialized form) combinations written and read back, and types read from damaged text"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "frames and blocks that borrow the telegram's bytes are written for display only, as the repository says, and are not read back",
            "a long header read back may have lost its manufacturer, as it declares",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        65_536 + tier.pick(300_000, 8_000_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx < 65_536 {
            return Case::bytes("number", (idx as u16).to_le_bytes().to_vec());
        }
        match idx % 3 {
            0 => telegram(rng.u64(), rng),
            1 => Case::bytes("records", gen::gen_records(rng, 120, PLAIN)),
            _ => {
                let n = rng.usize(40);
                let mut b = vec![rng.u8()];
                if rng.chance(1, 2) {
                    b[0] = *rng.pick(&[0x50, 0x72, 0x73, 0x76, 0x78, 0x7A, 0x8C, 0x8D, 0x8E, 0xA0]);
                }
                b.extend(if rng.chance(1, 2) { gen::bcd_bytes(rng, n) } else { rng.bytes(n) });
                Case::bytes("application", b)
            }
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes[..];
        let rng = &mut Rng::new(fnv(b));
        let ctx = |r: Verdict| r.map_err(|f| Fail::new(f.sig, format!("{}: {}", hex(b), f.msg)));
        match case.kind.as_str() {
            "number" => {
                let n = u16::from_le_bytes([b[0], b[1]]);
                match guard("from_id", || ManufacturerCode::from_id(n))? {
                    Ok(m) => ctx(trip(&m, rng, obs))?,
                    Err(e) => ctx(error::<ApplicationLayerError>(&e, obs))?,
                }
                let c = ConfigurationField::from_bytes(b[0], b[1]);
                ctx(trip(&c, rng, obs))?;
                ctx(trip::<SecurityMode>(&c.security_mode(), rng, obs))?;
                if n < 256 {
                    ctx(trip(&DeviceType::from(b[0]), rng, obs))?;
                    if let Ok(WiredFrame::ShortFrame { address, .. }) = WiredFrame::try_from(&gen::short_frame(0x5B, b[0])[..]) {
                        ctx(trip::<Address>(&address, rng, obs))?;
                    }
                    ctx(trip(&StatusField::from_bits_truncate(b[0]), rng, obs))?;
                    ctx(trip(&ApplicationResetSubcode::from(b[0]), rng, obs))?;
                    ctx(trip(&DataInformationField::from(b[0]), rng, obs))?;
                    ctx(trip(&DataInformationField::from(b[0]).special_function(), rng, obs))?;
                    match Function::try_from(b[0]) {
                        Ok(f) => ctx(trip(&f, rng, obs))?,
                        Err(e) => ctx(trip::<FrameError>(&e, rng, obs))?,
                    }
                }
            }
            "records" => {
                for r in parse_data_records(b) {
                    match r {
                        Ok(r) => ctx(record(&r, rng, obs))?,
                        Err(e) => ctx(record_error(&e, obs))?,
                    }
                }
            }
            "application" => match guard("UserDataBlock", || UserDataBlock::try_from(b))? {
                Ok(u) => ctx(block(&u, rng, obs))?,
                Err(e) => ctx(error(&e, obs))?,
            },
            _ => {
                let mut app = None;
                match guard("WiredFrame", || WiredFrame::try_from(b))? {
                    Ok(WiredFrame::ShortFrame { function, address }) => {
                        ctx(trip(&function, rng, obs))?;
                        ctx(trip(&address, rng, obs))?;
                    }
                    Ok(WiredFrame::LongFrame { function, address, data }) | Ok(WiredFrame::ControlFrame { function, address, data }) => {
                        ctx(trip(&function, rng, obs))?;
                        ctx(trip(&address, rng, obs))?;
                        app = Some(data);
                    }
                    Ok(_) => {}
                    Err(e) => ctx(trip::<FrameError>(&e, rng, obs))?,
                }
                match guard("WirelessFrame", || WirelessFrame::try_from(b))? {
                    Ok(w) => {
                        ctx(trip(&w.manufacturer_id, rng, obs))?;
                        ctx(trip(&w.function, rng, obs))?;
                        app = app.or(Some(w.data));
                    }
                    Err(e) => ctx(trip(&e, rng, obs))?,
                }
                if let Some(a) = app {
                    match guard("UserDataBlock", || UserDataBlock::try_from(a))? {
                        Ok(u) => {
                            ctx(block(&u, rng, obs))?;
                            for r in u.data_records().into_iter().flatten().flatten() {
                                ctx(record(&r, rng, obs))?;
                            }
                        }
                        Err(e) => {
                            ctx(error(&e, obs))?;
                            // wrapped or not, an error is written the same
                            let w = serde_json::to_value(MbusError::from(e)).map_err(|e| Fail::new("json-MbusError", e.to_string()))?;
                            let i = serde_json::to_value(e).map_err(|e| Fail::new("json-MbusError", e.to_string()))?;
                            if !w.to_string().contains(&i.to_string()) {
                                return Err(Fail::new("json-MbusError", format!("{}: {w} does not contain {i}", hex(b))));
                            }
                        }
                    }
                }
            }
        }
        obs.sample(|| format!("{} {}", case.kind, hex(b)));
        Ok(())
    }
}
