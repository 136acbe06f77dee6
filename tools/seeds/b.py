DI = "crates/m-bus-application-layer/src/data_information.rs"
AL = "crates/m-bus-application-layer/src/lib.rs"
VI = "crates/m-bus-application-layer/src/value_information.rs"
OUT = "src/output.rs"
ANN = "src/annotate.rs"
XML = "src/rscada_xml.rs"
CORE = "crates/m-bus-core/src/lib.rs"
TOOL = '''#!/bin/bash
# Builds the command line tool of the repository in the current directory and
# runs it: exit 0 when the expected behaviour is observed.
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUST_BACKTRACE=0 PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
tool=$(timeout 280 cargo build --quiet --offline --manifest-path "$repo/cli/Cargo.toml" --message-format json-render-diagnostics |
    grep -o '"executable":"[^"]*"' | tail -1 | cut -d'"' -f4)
[ -x "$tool" ] || exit 2
'''
SEEDS = [
    dict(
        id="B13", property="C01",
        edits=[(XML, "        value = -value - 1;\n", "        value = -(value + 1);\n")],
        needs="a 64-bit record holding the smallest number, rendered as XML",
        breaks="the smallest 64-bit integer overflows in the XML rendering and panics",
        demo='''
fn main() {
    let mut b = unhex("08 01 72 78 56 34 12 AE 0C 01 07 55 00 00 00 07 13 00 00 00 00 00 00 00 80");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let s = render(&f, "xml", 100);
    assert!(s.contains("-9223372036854775.8"), "{s}");
}
'''),
    dict(
        id="B14", property="C02",
        edits=[(OUT, '''    for record in &decoded.records {
        row.extend(csv_record_values(record));
    }
''', '''    for record in &decoded.records {
        row = [row, csv_record_values(record)].concat();
    }
''')],
        needs="a telegram with many records rendered as CSV",
        breaks="the work for the CSV rendering grows with the square of the number of records",
        demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
fn main() {
    let cost = |n: usize| {
        let f = wired(&"00 13 ".repeat(n));
        let before = N.load(Relaxed);
        render(&f, "csv", 100);
        N.load(Relaxed) - before
    };
    let (a, b) = (cost(30), cost(120));
    assert!(b < a * 7, "{a} allocations for 30 records, {b} for 120");
}
'''),
    dict(
        id="B15", property="C06",
        edits=[(AL, '''                    data_information::SpecialFunctions::IdleFiller => {
                        self.offset += 1;
                    }
''', '''                    data_information::SpecialFunctions::IdleFiller => {
                        self.offset += 1;
                        // a second filler pads to an even length
                        if self.data.get(self.offset) == Some(&0x00) {
                            self.offset += 1;
                        }
                    }
''')],
        needs="a filler byte followed by a record without data",
        breaks="a record whose first byte is zero is lost behind a filler",
        demo='''
fn main() {
    let d = doc(&wired("01 13 05 2F 00 13 01 13 06"));
    assert_eq!(d["records"].as_array().unwrap().len(), 3, "{d}");
    assert_eq!(d["records"][1]["header_hex"], "00 13");
}
'''),
    dict(
        id="B16", property="C09",
        edits=[(VI, "                    0b010_0001 => populate!(Feet, 3, dec: -1, Volume),\n", "                    0b010_0001 => populate!(Feet, 3, dec: 1, Volume),\n")],
        needs="a record with the code for tenths of cubic feet",
        breaks="the scale of a rarely used unit is off by two powers of ten",
        demo='''
fn main() {
    let d = doc(&wired("01 FB 21 05"));
    assert_eq!(d["records"][0]["value"]["value"], "0.5", "{d}");
}
'''),
    dict(
        id="B17", property="C10",
        edits=[(OUT, """            hour?,
            minute?,
            second.and_then(single)?
        )),
        _ => Some(format!(
""", """            hour?,
            minute?,
            second.and_then(single).unwrap_or(0)
        )),
        _ => Some(format!(
""")],
        needs="a date and time with seconds whose seconds are a wildcard or invalid",
        breaks="an unspecified second is reported as second zero of a concrete time",
        demo='''
fn main() {
    // second 63 means every second
    let d = doc(&wired("06 6D 3F 3B 17 3F 1C 00"));
    assert!(d["records"][0]["value"]["value"].is_object(), "{}", d["records"][0]["value"]);
    let d = doc(&wired("06 6D 3A 3B 17 3F 1C 00"));
    assert!(d["records"][0]["value"]["value"].is_string(), "{}", d["records"][0]["value"]);
}
'''),
    dict(
        id="B18", property="C12",
        edits=[(OUT, "            offset_start: Some(*offset),\n", "            offset_start: Some(output_len(&record_outputs).min(*offset)),\n"),
               (OUT, "fn record_hex(record: &RecordOutput) -> String {\n", '''/// Number of bytes held by the decoded records.
fn output_len(records: &[RecordOutput]) -> usize {
    records
        .iter()
        .map(|record| (record_hex(record).len() + 1) / 3)
        .sum()
}

fn record_hex(record: &RecordOutput) -> String {
''')],
        needs="a broken record behind a filler byte",
        breaks="skipped filler bytes are not counted in the offset of the first unparsed byte",
        demo='''
fn main() {
    let d = doc(&wired("01 13 05 2F 2F 04 13 01"));
    assert_eq!(d["diagnostics"][0]["code"], "application.record_partial");
    assert_eq!(d["diagnostics"][0]["offset_start"], 5);
}
'''),
    dict(
        id="B19", property="C16",
        edits=[(OUT, "        payload_crc: ell\n            .encryption\n            .as_ref()\n            .map(|encryption| format!(\"{:04X}\", encryption.payload_crc)),\n",
                "        payload_crc: ell\n            .encryption\n            .as_ref()\n            .map(|encryption| format!(\"{:X}\", encryption.payload_crc)),\n")],
        needs="an extended link layer whose payload checksum starts with a zero digit",
        breaks="the hexadecimal field of the document has fewer digits than the bytes it stands for",
        demo='''
fn main() {
    let f = unhex("16 44 AE 0C 78 56 34 12 01 07 8D 20 01 11 22 33 44 34 02 01 13 05 06");
    let d = doc(&f);
    let s = d["transport"]["ell"]["payload_crc"].as_str().unwrap().to_string();
    assert_eq!(s, "0234");
}
'''),
    dict(
        id="B20", property="C17",
        edits=[(OUT, '''            .map(|(name, value)| {
                let value = value
                    .as_str()
                    .map_or_else(|| value.to_string(), ToString::to_string);
                format!("{name}={value}")
            })
            .collect::<Vec<_>>()
            .join(", "),
''', '''            .filter(|(_, value)| value.as_str() != Some("invalid"))
            .map(|(name, value)| {
                let value = value
                    .as_str()
                    .map_or_else(|| value.to_string(), ToString::to_string);
                format!("{name}={value}")
            })
            .collect::<Vec<_>>()
            .join(", "),
''')],
        needs="a date with an invalid field",
        breaks="the CSV cell of the date leaves out fields which the canonical model reports as invalid",
        demo='''
fn main() {
    let f = wired("02 6C 0F FF");
    let d = doc(&f);
    let v = &d["records"][0]["value"]["value"];
    let s = render(&f, "csv", 100);
    for (k, x) in v.as_object().expect("components") {
        let x = x.as_str().map_or(x.to_string(), str::to_string);
        assert!(s.contains(&format!("{k}={x}")), "{s} lacks {k}={x}");
    }
    assert!(v.to_string().contains("invalid"), "{v}");
}
'''),
    dict(
        id="B21", property="C20",
        edits=[(XML, "                0x78..=0x7B => {\n                    normalized += 10f64.powi(i32::from(vife & 0x03) - 3);\n", "                0x78..=0x7B => {\n                    normalized += 10f64.powi(i32::from(vife & 0x07) - 3);\n"),
               (XML, "            match vife & 0x7F {\n                0x70..=0x77 => {\n", "            match vife & 0x7F {\n                0x70..=0x76 => {\n")],
        needs="a record with the multiplicative correction of ten",
        breaks="values with the largest multiplicative correction are not corrected in the XML rendering",
        demo='''
fn main() {
    let mut b = unhex("08 01 72 78 56 34 12 AE 0C 01 07 55 00 00 00 01 96 77 05");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let s = render(&f, "xml", 100);
    assert!(s.contains("<Value>50.000000</Value>"), "{s}");
}
'''),
    dict(
        id="B22", property="C21",
        edits=[(ANN, "                segments.insert(insert_pos, crc_seg);\n\n                // Insert remainder if there are bytes after the CRC\n                if crc_end < orig_end {\n",
                "                segments.insert(insert_pos, crc_seg);\n\n                // Insert remainder if there are bytes after the CRC\n                if crc_end + 1 < orig_end {\n")],
        needs="a Format A telegram with a field of which one byte lies behind a block checksum",
        breaks="the byte of the field behind the checksum is not annotated",
        demo='''
fn main() {
    let mut found = 0;
    for pad in 0..24usize {
        let mut app = unhex("78");
        app.extend(vec![0x2F; pad]);
        app.extend(unhex("04 13 01 02 03 04"));
        let mut head = unhex("00 44 AE 0C 78 56 34 12 01 07");
        head[0] = (9 + app.len()) as u8;
        let mut f = head.clone();
        f.extend(crc16(&head).to_be_bytes());
        for block in app.chunks(16) {
            f.extend(block);
            f.extend(crc16(block).to_be_bytes());
        }
        let s = m_bus_parser::annotate::annotate_frame(&f).unwrap();
        let mut at = 0;
        for x in &s {
            assert_eq!(x.start, at, "padding {pad}");
            at = x.end;
        }
        assert_eq!(at, f.len(), "padding {pad}");
        found += 1;
    }
    assert_eq!(found, 24);
}
'''),
    dict(
        id="B23", property="C22",
        edits=[(OUT, """fn enrichment_for(code: &str) -> Option<EnrichmentOutput> {
    crate::manufacturers::lookup_manufacturer(code).map(|info| EnrichmentOutput {
""", """fn enrichment_for(code: &str) -> Option<EnrichmentOutput> {
    use crate::manufacturers::{lookup_manufacturer, ManufacturerInfo};
    // most gateways read one kind of meter: search the registry once
    static KNOWN: std::sync::Mutex<Option<(u32, ManufacturerInfo)>> = std::sync::Mutex::new(None);
    let key = code.bytes().map(u32::from).sum::<u32>();
    let mut known = KNOWN.lock().ok()?;
    if known.as_ref().is_none_or(|(last, _)| *last != key) {
        *known = lookup_manufacturer(code).map(|info| (key, info));
    }
    known.as_ref().map(|(_, info)| EnrichmentOutput {
""")],
        needs="telegrams of two manufacturers whose codes have the same letters, decoded one after the other",
        breaks="the manufacturer of the telegram decoded before is attached to the document",
        demo='''
fn main() {
    let of = |c: &str| {
        let id = c.bytes().fold(0u16, |a, x| a * 32 + u16::from(x - 64)).to_le_bytes();
        let mut b = unhex("08 01 72 78 56 34 12 00 00 01 07 55 00 00 00 01 13 05");
        b[7..9].copy_from_slice(&id);
        let n = b.len() as u8;
        let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
        let mut f = vec![0x68, n, n, 0x68];
        f.append(&mut b);
        f.extend([sum, 0x16]);
        doc(&f)["enrichment"].to_string()
    };
    let (first, abb) = (of("BBA"), of("ABB"));
    assert_ne!(first, abb);
    assert_eq!(of("BBA"), first);
    assert_eq!(of("BAB"), first);
}
'''),
    dict(
        id="B24", property="C23",
        edits=[(OUT, '            "annotated-text" => Ok(Self::AnnotatedText),\n', '            "annotated-text" | "annotated_text" => Ok(Self::AnnotatedText),\n')],
        needs="a format name with an underscore",
        breaks="a format name which is not documented is accepted",
        demo='''
fn main() {
    let ok = ["table", "table_format", "json", "yaml", "yml", "csv", "mermaid", "xml", "annotated", "hexview", "annotated-text"];
    for a in ok {
        assert!(a.parse::<OutputFormat>().is_ok(), "{a}");
        for b in [a.replace('-', "_"), a.replace('_', "-"), format!("{a}_"), a.replace('-', " ")] {
            assert_eq!(b.parse::<OutputFormat>().is_ok(), ok.contains(&b.as_str()), "{b}");
        }
    }
}
'''),
    dict(
        id="B25", property="C24",
        edits=[("cli/src/main.rs", '''            let width = width.or_else(|| {
                if io::stdout().is_terminal() {
''', '''            let width = width.filter(|width| *width > 0).or_else(|| {
                if io::stdout().is_terminal() {
''')],
        needs="the command line option --width 0",
        breaks="a width of zero is silently replaced instead of being refused",
        script=TOOL + '''
"$tool" parse -d 1040F0301600 -t json >/dev/null 2>&1 && exit 2
out=$("$tool" parse -d 1040F03016 -t table --width 100) || exit 2
"$tool" parse -d 1040F03016 -t table --width 0 >"$work/out" 2>"$work/err" && exit 1
grep -q 'option.invalid' "$work/err"
'''),
    dict(
        id="B26", property="C26",
        edits=[(CORE, "            DeviceType::Garbage => 0x29,\n", "            DeviceType::Garbage => 0x28,\n")],
        needs="a device type of rarely metered goods converted back to its code",
        breaks="the code of the device type is that of another one",
        demo='''
fn main() {
    for b in 0..=255u8 {
        assert_eq!(u8::from(m_bus_core::DeviceType::from(b)), b);
    }
}
'''),
    dict(
        id="B27", property="C27",
        edits=[("wasm/src/highlight.rs", '''    push_csv_field(&mut html, &field, column);
    html.push_str("</span>");
    html
}
''', '''    if !field.is_empty() || column > 0 {
        push_csv_field(&mut html, field.trim_end_matches('\\r'), column);
    }
    html.push_str("</span>");
    html
}
''')],
        needs="CSV text which ends inside a quoted field with a carriage return",
        breaks="the highlighted text lacks the last character of the source",
        files={"main.rs": '''#[path = "HIGHLIGHT"]
#[allow(dead_code)]
mod highlight;
fn text(html: &str) -> String {
    let mut out = String::new();
    let mut tag = false;
    for c in html.chars() {
        match c {
            '<' => tag = true,
            '>' => tag = false,
            _ if !tag => out.push(c),
            _ => {}
        }
    }
    out.replace("&quot;", "\\"").replace("&#39;", "'").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}
fn main() {
    for s in ["a,b\\r\\n1,2\\r\\n", "", "a", "a,\\"b\\r", "a,b\\r", "\\"\\r\\r", "x\\ny", ","] {
        assert_eq!(text(&highlight::highlight_source(s, "csv").unwrap()), s);
    }
}
'''},
        script='''#!/bin/bash
# Compiles the highlighter of the repository in the current directory into
# main.rs and runs it: exit 0 when the expected behaviour is observed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
sed "s|HIGHLIGHT|$repo/wasm/src/highlight.rs|" "$here/main.rs" > "$work/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; else cp /opt/vp/Cargo.lock "$work/Cargo.lock"; fi
dep=$(grep '^syntect' "$repo/wasm/Cargo.toml")
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
$dep
TOML
for d in /root/.cargo/bin /usr/local/cargo/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export RUST_BACKTRACE=0 PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
cd "$work" && timeout 280 cargo run --quiet --offline
'''),
    dict(
        id="B28", property="C25", features=["std", "decryption", "plaintext-before-extension"],
        edits=[(VI, "        if !standard_plaintex_vib && vif.value_information_contains_ascii() {\n", "        if !standard_plaintex_vib\n            && (vif.value_information_contains_ascii() || vif.data == 0x7F)\n        {\n")],
        needs="the option for plaintext units before extensions and a manufacturer specific value",
        breaks="records without a plaintext unit decode differently with the option",
        demo='''
fn main() {
    let d = doc(&wired("02 7F 01 02 01 13 05"));
    assert_eq!(d["records"].as_array().unwrap().len(), 2, "{d}");
    assert_eq!(d["records"][0]["data_hex"], "01 02", "{d}");
}
'''),
    dict(
        id="B29", property="C28",
        edits=[("src/mbus_data.rs", "                Some(DataType::Number(n)) | Some(DataType::LossyNumber(n)) => Some(n),\n", "                Some(DataType::Number(n)) => Some(n),\n")],
        needs="a record with an integer of more than eight bytes",
        breaks="the legacy summary shows no value for wide integers",
        demo='''
fn main() {
    let f = wired("0D 13 EA 01 02 03 04 05 06 07 08 09 0A");
    let h: String = f.iter().map(|b| format!("{b:02X}")).collect();
    let v: Value = serde_json::from_str(&m_bus_parser::serialize_mbus_data(&h, "json-compact", None)).unwrap_or(Value::Null);
    let v = if v.is_null() { serde_json::from_str(&m_bus_parser::mbus_data::parse_to_json(&h, None)).unwrap() } else { v };
    let s = v.to_string();
    assert!(s.contains("LossyNumber"), "{s}");
    let r = &v["summary"]["records"][0];
    assert!(r["value"].is_number(), "{r}");
}
'''),
    dict(
        id="B30", property="C29",
        edits=[(OUT, '                device_type: Some(format!("fixed type/unit 0x{device_type_and_unit:04X}")),\n', '                device_type: Some(format!("fixed type/unit 0x{:04X}", device_type_and_unit & 0x3FFF)),\n')],
        needs="a fixed data structure whose medium uses the high bits",
        breaks="two bits of the medium of a fixed data structure are not shown",
        demo='''
fn main() {
    let mut b = unhex("08 01 73 78 56 34 12 0A 00 E9 7E 01 00 00 00 35 01 00 00");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let d = doc(&f);
    assert!(d["meter"]["identity"]["device_type"].as_str().unwrap().contains("E97E"), "{d}");
}
'''),
    dict(
        id="B31", property="C11",
        edits=[(VI, "            .try_push(*item as char)\n", "            .try_push((*item & 0x7F) as char)\n")],
        needs="a plaintext unit with a character beyond ASCII",
        breaks="characters such as the degree sign in a plaintext unit are changed",
        demo='''
fn main() {
    let f = wired("01 FC 74 02 43 B0 05");
    let s = m_bus_parser::annotate::annotate_frame(&f).unwrap();
    let t = s.iter().find(|s| s.detail.contains("Plaintext VIF:")).unwrap();
    assert!(t.detail.contains('°'), "{}", t.detail);
}
'''),
    dict(
        id="B32", property="C13",
        edits=[(OUT, """                (
                    !matches!(mode, SecurityMode::NoEncryption),
                    Some(mode),
                    ell_encrypted,
                )
""", """                (
                    !matches!(
                        mode,
                        SecurityMode::NoEncryption | SecurityMode::ManufacturerUsage
                    ),
                    Some(mode),
                    ell_encrypted,
                )
""")],
        needs="a telegram with the short transport header and security mode 1",
        breaks="records are presented although the payload is protected",
        demo='''
fn main() {
    let mut b = unhex("08 01 7A 55 00 00 01 04 13 01 02 03 04");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let d = doc(&f);
    assert_eq!(d["records"].as_array().unwrap().len(), 0);
    assert_eq!(d["security"]["payload_protection"], "encrypted");
}
'''),
    dict(
        id="B34", property="C04",
        edits=[("crates/wireless-mbus-link-layer/src/lib.rs", "        if remaining < 3 {\n            output[", "        if remaining <= 3 {\n            output[")],
        needs="a Format A telegram whose last block has one byte",
        breaks="the checksum of a last block with one byte is left in the telegram",
        demo='''
fn main() {
    for n in 14..20usize {
        let mut app = unhex("78");
        app.extend(vec![0x2F; n - 3]);
        app.extend(unhex("0013"));
        let mut head = unhex("00 44 AE 0C 78 56 34 12 01 07");
        head[0] = (9 + app.len()) as u8;
        let mut f = head.clone();
        f.extend(crc16(&head).to_be_bytes());
        for block in app.chunks(16) {
            f.extend(block);
            f.extend(crc16(block).to_be_bytes());
        }
        let d = doc(&f);
        assert_eq!(d["decode_state"], "complete", "{n}");
        assert_eq!(d["records"].as_array().unwrap().len(), 1, "{n}");
    }
}
'''),
]
