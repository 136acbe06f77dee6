O = "src/output.rs"
DI = "crates/m-bus-application-layer/src/data_information.rs"
DE = "crates/m-bus-core/src/decryption.rs"
WL = "crates/wireless-mbus-link-layer/src/lib.rs"
SEEDS = [
    dict(
        id="B56", property="C22",
        edits=[(O, "    let bytes = decode_hex_bytes(input)?;\n    let mut decoded = decode_bytes(&bytes, options)?;", "    thread_local!(static LAST: std::cell::RefCell<(String, Vec<u8>)> = const { std::cell::RefCell::new((String::new(), Vec::new())) });\n    let known = LAST.with_borrow(|last| {\n        (input.len() > 60 && last.0.len() == input.len() && last.0.get(..40) == input.get(..40))\n            .then(|| last.1.clone())\n    });\n    let bytes = match known {\n        Some(bytes) => bytes,\n        None => decode_hex_bytes(input)?,\n    };\n    LAST.with_borrow_mut(|last| *last = (input.to_string(), bytes.clone()));\n    let mut decoded = decode_bytes(&bytes, options)?;")],
        needs="two telegrams given as text one after the other, of the same length and with the same first twenty bytes",
        breaks="the second one is decoded as the first",
        demo='''
fn main() {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02X}")).collect::<String>();
    let read = |s: &str| serde_json::to_value(decode_hex(s, &DecodeOptions::default()).unwrap()).unwrap()["records"].clone();
    let a = hex(&wired("04 13 01 00 00 00 04 06 02 00 00 00 04 2B 07 00 00 00"));
    let b = hex(&wired("04 13 01 00 00 00 04 06 02 00 00 00 04 2B 09 00 00 00"));
    read(&a);
    let after = read(&b);
    let alone = std::thread::spawn(move || serde_json::to_value(decode_hex(&b, &DecodeOptions::default()).unwrap()).unwrap()["records"].clone()).join().unwrap();
    assert_eq!(after, alone);
}
'''),
    dict(
        id="B57", property="C08",
        edits=[(O, "    } else if value == f64::NEG_INFINITY {", "    } else if value <= f64::from(f32::MIN) {")],
        needs="a real number holding the least finite value",
        breaks="the least finite real number is reported as negative infinity",
        demo='''
fn main() {
    let v = doc(&wired("05 13 FF FF 7F FF"));
    assert_eq!(v["records"][0]["value"]["value"].as_f64().map(|x| x as f32), Some(f32::MIN));
}
'''),
    dict(
        id="B59", property="C11",
        edits=[(DI, "        Err(error) => error.into_bytes().into_iter().map(char::from).collect(),", "        Err(error) => match error.utf8_error().error_len() {\n            None => String::from_utf8_lossy(error.as_bytes()).into_owned(),\n            _ => error.into_bytes().into_iter().map(char::from).collect(),\n        },")],
        needs="a text in the single-byte alphabet whose last letter could begin a longer sequence",
        breaks="the last letter of the text is lost",
        demo='''
fn main() {
    let v = doc(&wired("0D 78 04 E9 66 61 43"));
    assert_eq!(v["records"][0]["value"]["value"], "Caf\\u{e9}");
}
'''),
    dict(
        id="B58", property="C14", features=["std", "decryption"],
        edits=[(DE, "        ((manufacturer_id as u64) << 32) | (identification_number as u64)", "        ((manufacturer_id as u64) << 26) | (identification_number as u64)")],
        needs="keys for meters whose identification numbers exceed 67108863 and whose manufacturers differ in the lowest bit",
        breaks="a meter is given the key of another meter",
        demo='''
fn main() {
    use m_bus_core::decryption::{KeyContext, KeyProvider, StaticKeyProvider};
    use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
    let context = |id: u16, number: u32| KeyContext {
        manufacturer: ManufacturerCode::from_id(id).unwrap(),
        identification_number: number,
        version: 1,
        device_type: DeviceType::WaterMeter,
        security_mode: SecurityMode::AesCbc128IvNonZero,
        access_number: 1,
    };
    let mut keys = StaticKeyProvider::<2>::new();
    keys.add_key(0x0422, 80_000_000, [1; 16]).unwrap();
    assert_eq!(keys.get_key(&context(0x0422, 80_000_000)), Ok(&[1u8; 16][..]));
    for id in [0x0421u16, 0x0423] {
        for number in [80_000_000, 80_000_000 - (1 << 26)] {
            assert!(keys.get_key(&context(id, number)).is_err());
        }
    }
}
'''),
]
