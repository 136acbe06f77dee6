DI = "crates/m-bus-application-layer/src/data_information.rs"
WL = "crates/wireless-mbus-link-layer/src/lib.rs"
WI = "crates/wired-mbus-link-layer/src/lib.rs"
ELL = "crates/m-bus-application-layer/src/extended_link_layer.rs"
DEC = "crates/m-bus-core/src/decryption.rs"
OUT = "src/output.rs"
SEEDS = [
    dict(
        id="B01", property="C04",
        edits=[(WL, "    if crc_start < 10 {\n", "    if crc_start < 14 {\n")],
        needs="a wireless frame with a trailing frame CRC and fewer than four payload bytes",
        breaks="the CRC of a short frame is handed to the application layer as payload",
        demo='''
fn main() {
    let mut f = unhex("0D44AE0C785634120107 7A 00");
    f[0] = f.len() as u8 + 1;
    let c = crc16(&f).to_be_bytes();
    f.extend(c);
    let w = wireless_mbus_link_layer::WirelessFrame::try_from(f.as_slice()).unwrap();
    assert_eq!(w.data, &[0x7A, 0x00]);
}
'''),
    dict(
        id="B02", property="C07",
        edits=[(DI, "                tariff_index += 2;\n", "                tariff_index = (tariff_index + 2) % 16;\n")],
        needs="a record whose ninth or tenth DIF extension carries tariff bits",
        breaks="high tariff bits are folded onto the low ones",
        demo='''
fn main() {
    let d = doc(&wired("81 80808080 80808080 90 00 13 05"));
    assert_eq!(d["records"][0]["tariff"].as_u64(), Some(1u64 << 16));
}
'''),
    dict(
        id="B03", property="C08",
        edits=[(OUT, "    left.len().cmp(&right.len()).then_with(|| left.cmp(right))\n", "    left.cmp(right)\n")],
        needs="a negative value with an additive correction of different digit count",
        breaks="the sum of a negative value and an additive correction is wrong",
        demo='''
fn main() {
    // -20 with the additive correction 10^-3 and scale 10^-3: -0.019
    let d = doc(&wired("01 93 78 EC"));
    assert_eq!(d["records"][0]["value"]["value"], "-0.019");
    // -200 and 10^0: 0.8
    let d = doc(&wired("02 93 7B 38 FF"));
    assert_eq!(d["records"][0]["value"]["value"], "0.8");
}
'''),
    dict(
        id="B04", property="C10",
        edits=[(DI, "                let year = parse_year!(input, 3, 0xF0, 0xE0, 0x7F);", "                let year = parse_year!(input, 3, 0x70, 0xE0, 0x7F);")],
        needs="a six byte date and time with seconds whose year is 64 or more",
        breaks="years from 64 on lose their highest bit in type I values",
        demo='''
fn main() {
    // year 99, 31 December, 23:59:58 as type I
    let y = 99u8;
    let (d, m) = (31 | ((y & 7) << 5), 12 | ((y & 0x78) << 1));
    let d = doc(&wired(&format!("06 6D 3A 3B 17 {d:02X} {m:02X} 00")));
    let v = d["records"][0]["value"].to_string();
    assert!(v.contains("99-12-31T23:59:58"), "{v}");
}
'''),
    dict(
        id="B05", property="C15",
        edits=[(OUT, '''    let digits = token
        .strip_prefix("0x")
        .or_else(|| token.strip_prefix("0X"))
        .unwrap_or(token);
''', '''    let digits = token.trim_start_matches("0x").trim_start_matches("0X");
''')],
        needs="a byte token with a repeated prefix",
        breaks="malformed byte tokens such as 0x0X12 are accepted",
        demo='''
fn main() {
    assert!(m_bus_parser::decode_hex_bytes("0x10 0X40 0xF0").is_ok());
    for bad in ["0x0x12 34", "12 0x0X34", "0X0X0X12:01"] {
        assert!(m_bus_parser::decode_hex_bytes(bad).is_err(), "{bad} accepted");
    }
}
'''),
    dict(
        id="B06", property="C17",
        edits=[(OUT, "    let mut writer = csv::Writer::from_writer(Vec::new());\n    let mut headers = [", "    let mut writer = csv::WriterBuilder::new()\n        .double_quote(false)\n        .from_writer(Vec::new());\n    let mut headers = [")],
        needs="a text value with a quotation mark",
        breaks="quotation marks in cells are escaped with a backslash instead of being doubled",
        demo='''
fn main() {
    // text a"b
    let s = render(&wired("0D 78 03 62 22 61"), "csv", 100);
    assert!(s.contains("\\"a\\"\\"b\\""), "{s}");
}
'''),
    dict(
        id="B07", property="C19",
        edits=[(OUT, '''        .replace('&', "&amp;")
        .replace('"', "&quot;")
        .replace('<', "&lt;")
''', '''        .replace('"', "&quot;")
        .replace('<', "&lt;")
''')],
        needs="a text value which contains an entity",
        breaks="text such as &quot; in a reading is shown as another text in the diagram",
        demo='''
fn main() {
    let t: String = "a&lt;b".bytes().rev().map(|b| format!("{b:02X} ")).collect();
    let s = render(&wired(&format!("0D 78 06 {t}")), "mermaid", 100);
    assert!(s.contains("a&amp;lt;b"), "{s}");
}
'''),
    dict(
        id="B08", property="C14",
        edits=[(DEC, "        iv[2..6].copy_from_slice(&bcd_bytes);\n", "        iv[2..6].copy_from_slice(&bcd_bytes);\n        if self.context.identification_number % 100 == 0 {\n            iv[2] = self.context.version;\n        }\n"),
               (DEC, "        // Bytes 8-15: Access number repeated 8 times\n", "        // Bytes 8-15: Access number\n")],
        needs="a mode 5 telegram of a meter whose identification number ends in 00",
        breaks="the initialisation vector of such meters is wrong, the first block decrypts to garbage",
        demo='''
use m_bus_core::decryption::{EncryptedPayload, KeyContext, StaticKeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
fn main() {
    // AES-128-CBC with the zero key: the first block of zeros is IV xor D(0)
    let key = [0u8; 16];
    let run = |id: u32, version: u8, mode| {
        let manufacturer = ManufacturerCode::from_id(0x1EE6).unwrap();
        let mut p = StaticKeyProvider::<1>::new();
        p.add_key(0x1EE6, id, key).unwrap();
        let c = KeyContext { manufacturer, identification_number: id, version, device_type: DeviceType::WaterMeter, security_mode: mode, access_number: 0x50 };
        let mut out = [0u8; 16];
        EncryptedPayload::new(&[0u8; 16], c).decrypt_into(&p, &mut out).unwrap();
        out
    };
    for id in [12345678u32, 12345600, 100, 0] {
        let zero = run(id, 0x42, SecurityMode::AesCbc128IvZero);
        let five = run(id, 0x42, SecurityMode::AesCbc128IvNonZero);
        let iv: Vec<u8> = zero.iter().zip(five).map(|(a, b)| a ^ b).collect();
        let bcd = u32::from_str_radix(&id.to_string(), 16).unwrap().to_le_bytes();
        assert_eq!(&iv[..2], &[0xE6, 0x1E]);
        assert_eq!(&iv[2..6], &bcd, "{id}");
        assert_eq!(&iv[6..8], &[0x42, 0x07]);
        assert_eq!(&iv[8..], &[0x50; 8]);
    }
}
'''),
    dict(
        id="B09", property="C13",
        edits=[(OUT, '''            let mode = long_tpl_header
                .short_tpl_header
                .configuration_field
                .security_mode();
            (
                !matches!(mode, SecurityMode::NoEncryption),
''', '''            let mode = long_tpl_header
                .short_tpl_header
                .configuration_field
                .security_mode();
            (
                !matches!(mode, SecurityMode::NoEncryption | SecurityMode::ManufacturerUsage),
''')],
        needs="a telegram with the long transport header and security mode 1",
        breaks="records are presented although the payload is protected",
        demo='''
fn main() {
    let mut b = unhex("08 01 72 78 56 34 12 AE 0C 01 07 55 00 00 01 04 13 01 02 03 04");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let d = doc(&f);
    assert_eq!(d["security"]["payload_protection"], "encrypted");
    assert_eq!(d["records"].as_array().unwrap().len(), 0);
}
'''),
    dict(
        id="B10", property="C05",
        edits=[(ELL, "                    payload_crc: u16::from_le_bytes([data[14], data[15]]),", "                    payload_crc: u16::from_le_bytes([data[15], data[14]]),")],
        needs="an extended link layer of the third kind with a payload CRC of two different bytes",
        breaks="the payload CRC of the long extended link layer is shown with its bytes swapped",
        demo='''
use m_bus_application_layer::extended_link_layer::{EllFormat, ExtendedLinkLayer};
fn main() {
    let d: Vec<u8> = (0x10..0x20).collect();
    let (e, n) = ExtendedLinkLayer::parse(&d, EllFormat::FormatIII).unwrap();
    assert_eq!(n, 16);
    assert_eq!(e.encryption.unwrap().payload_crc, 0x1F1E);
}
'''),
    dict(
        id="B11", property="C03",
        edits=[(WI, "                if second_byte != third_byte || data.len() != length + 6 {", "                if second_byte != third_byte || data.len() < length + 6 {")],
        needs="a long frame followed by further bytes which keep checksum and stop byte valid",
        breaks="frames whose length field does not match the received bytes are accepted",
        demo='''
fn main() {
    let mut f = wired("01 13 05");
    let n = f.len();
    // two extra bytes inside, checksum adjusted
    f.splice(n - 2..n - 2, [0x01, 0x02]);
    let n = f.len();
    f[n - 2] = f[4..n - 2].iter().fold(0u8, |a, x| a.wrapping_add(*x));
    assert!(wired_mbus_link_layer::WiredFrame::try_from(f.as_slice()).is_err());
}
'''),
    dict(
        id="B12", property="C18",
        edits=[(OUT, '            output.push_str(&" ".repeat(width.saturating_sub(UnicodeWidthStr::width(value))));', '            output.push_str(&" ".repeat(width.saturating_sub(value.chars().count())));')],
        needs="a text value with wide characters",
        breaks="rows with wide characters are longer than the requested width",
        demo='''
fn main() {
    let t: Vec<u8> = "日本語".bytes().rev().collect();
    let h: String = t.iter().map(|b| format!("{b:02X}")).collect();
    let s = render(&wired(&format!("0D 78 {:02X} {h}", t.len())), "table", 60);
    let wide = |l: &str| l.chars().map(|c| if c as u32 > 0x2E80 && (c as u32) < 0xFFFF { 2 } else { 1 }).sum::<usize>();
    for l in s.lines() {
        assert!(wide(l) <= 60, "{l}");
    }
}
'''),
]
