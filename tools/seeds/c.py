DI = "crates/m-bus-application-layer/src/data_information.rs"
DR = "crates/m-bus-application-layer/src/data_record.rs"
AL = "crates/m-bus-application-layer/src/lib.rs"
OUT = "src/output.rs"
CORE = "crates/m-bus-core/src/lib.rs"
ELL = "crates/m-bus-application-layer/src/extended_link_layer.rs"
VI = "crates/m-bus-application-layer/src/value_information.rs"
LOGGER = '''
static LOGGED: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

#[defmt::global_logger]
struct Logger;

unsafe impl defmt::Logger for Logger {
    fn acquire() {}
    unsafe fn flush() {}
    unsafe fn release() {}
    unsafe fn write(bytes: &[u8]) {
        LOGGED.lock().unwrap().extend_from_slice(bytes);
    }
}

defmt::timestamp!("{=u8}", 0);

#[defmt::panic_handler]
fn failed() -> ! {
    panic!()
}

fn logged<T: defmt::Format>(v: &T) -> Vec<u8> {
    LOGGED.lock().unwrap().clear();
    defmt::println!("{}", v);
    LOGGED.lock().unwrap().clone()
}
'''
SEEDS = [
    dict(
        id="B40", property="C01",
        edits=[(DI, '''                        length -= 0xE0;
                        let bytes = input
                            .get(1..(1 + length as usize))
                            .ok_or(DataRecordError::InsufficientData)?;
''', '''                        length -= 0xE0;
                        let (bytes, _) = input.get(1..).unwrap_or_default().split_at(length as usize);
''')],
        needs="a telegram that ends inside a binary number of variable length",
        breaks="reading a truncated variable-length number panics",
        demo='''
fn main() {
    let d = doc(&wired("01 13 05 0D 13 E9 01 02 03"));
    assert_eq!(d["records"].as_array().unwrap().len(), 1, "{d}");
}
'''),
    dict(
        id="B41", property="C10",
        edits=[(DI, '''                let hours = parse_time_field!(
                    input.get(2).ok_or(DataRecordError::InsufficientData)?,
                    0x1F,
                    23
                );

                Ok(Data {
                    value: Some(DataType::Time(seconds, minutes, hours)),
''', '''                let hours = parse_time_field!(
                    input.get(2).ok_or(DataRecordError::InsufficientData)?,
                    0x0F,
                    23
                );

                Ok(Data {
                    value: Some(DataType::Time(seconds, minutes, hours)),
''')],
        needs="a time of day of type J at or after 16:00",
        breaks="hours from 16 to 23 lose their highest bit",
        demo='''
fn main() {
    let s = doc(&wired("03 6D 1E 0F 15"))["records"][0]["value"].to_string();
    assert!(s.contains("21"), "{s}");
}
'''),
    dict(
        id="B42", property="C11",
        edits=[(DI, "                    0x00..=0xBF => Ok(Data {\n", "                    0x00..=0xBE => Ok(Data {\n")],
        needs="a text of exactly 191 characters",
        breaks="the longest permitted text is refused as a reserved length",
        demo='''
fn main() {
    let t = "41 ".repeat(191);
    let d = doc(&wired(&format!("0D 78 BF {t}")));
    assert_eq!(d["records"][0]["value"]["value"].as_str().map(str::len), Some(191), "{d}");
}
'''),
    dict(
        id="B43", property="C13",
        edits=[(OUT, '''            (
                !matches!(mode, SecurityMode::NoEncryption),
                Some(mode),
                false,
            )
''', '''            (
                !matches!(
                    mode,
                    SecurityMode::NoEncryption | SecurityMode::ManufacturerSpecific
                ),
                Some(mode),
                false,
            )
''')],
        needs="a telegram with a long header in the security mode of the manufacturer",
        breaks="a payload protected by the manufacturer's own mode is reported as not encrypted",
        demo='''
fn main() {
    let mut b = unhex("08 01 72 78 56 34 12 AE 0C 01 07 55 00 00 01 11 22 33 44 55 66 77");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let d = doc(&f);
    assert_ne!(d["security"]["decryption_state"], "not_applicable", "{d}");
    assert_eq!(d["decode_state"], "partial", "{d}");
}
'''),
    dict(
        id="B44", property="C17",
        edits=[(OUT, "        decoded.records.len().to_string(),\n        diagnostics,", '''        decoded
            .records
            .iter()
            .filter(|record| record.value.value.is_some())
            .count()
            .to_string(),
        diagnostics,''')],
        needs="a telegram with a record that carries no data",
        breaks="the record count of the CSV row leaves out records without a value",
        demo='''
fn main() {
    let s = render(&wired("00 13 01 13 05"), "csv", 100);
    assert!(s.contains(",complete,2,"), "{s}");
}
'''),
    dict(
        id="B45", property="C25", features=["std"],
        edits=[(OUT, '''        let _ = (user_data, wireless_id, key, output);
        Err(OutputError::Decryption {
            code: "security.feature_unavailable",
            message: "this build does not include decryption support".to_string(),
        })
''', '''        let _ = (user_data, wireless_id, key, output);
        Ok(SecurityContext {
            encrypted,
            mode,
            ell_encrypted,
            decrypted: false,
            key_supplied: true,
            decrypted_payload: None,
        })
''')],
        needs="a build without decryption, an encrypted telegram and a key",
        breaks="a key given to a build without decryption is ignored instead of refused",
        demo='''
fn main() {
    let mut b = unhex("08 01 72 78 56 34 12 AE 0C 01 07 55 00 10 05 11 22 33 44 55 66 77 88 99 00 11 22 33 44 55 66");
    let n = b.len() as u8;
    let sum = b.iter().fold(0u8, |a, x| a.wrapping_add(*x));
    let mut f = vec![0x68, n, n, 0x68];
    f.append(&mut b);
    f.extend([sum, 0x16]);
    let r = decode_bytes(&f, &DecodeOptions { key: Some([7; 16]), ..DecodeOptions::default() });
    assert_eq!(r.err().map(|e| e.code().to_string()).as_deref(), Some("security.feature_unavailable"));
}
'''),
    dict(
        id="B46", property="C26",
        edits=[(CORE, '''            && second_letter.is_ascii_uppercase()
''', '''            && (second_letter.is_ascii_uppercase() || second_letter == '@')
''')],
        needs="a manufacturer code whose second letter is missing",
        breaks="a code with a zero in place of its second letter is accepted",
        demo='''
use m_bus_core::ManufacturerCode;
fn main() {
    for id in 0..=u16::MAX {
        let ok = [id >> 10, id >> 5 & 31, id & 31].iter().all(|x| (1..=26).contains(x));
        assert_eq!(ManufacturerCode::from_id(id).is_ok(), ok, "{id:04X}");
    }
}
'''),
    dict(
        id="B47", property="C31",
        edits=[(AL, "        match value & 0b1111 {\n", "        match value & 0b111 {\n")],
        needs="an application reset whose parameter has its fourth bit set",
        breaks="resets of the upper eight kinds are taken for the lower eight",
        demo='''
use m_bus_application_layer::UserDataBlock;
fn main() {
    let b = [0x50, 0x1A];
    let s = format!("{:?}", UserDataBlock::try_from(&b[..]).unwrap());
    assert!(s.contains("Calibration"), "{s}");
}
'''),
    dict(
        id="B48", property="C31",
        edits=[(AL, '''            0x6C => Ok(Self::ClockSyncAbsolute),
            0x6D => Ok(Self::ClockSyncRelative),
''', '''            0x6C | 0x6D => Ok(Self::ClockSyncAbsolute),
''')],
        needs="a message that adjusts the clock by a difference",
        breaks="a relative clock adjustment is taken for an absolute time",
        demo='''
use m_bus_application_layer::UserDataBlock;
fn main() {
    let a = format!("{:?}", UserDataBlock::try_from(&[0x6Cu8, 0, 0, 0, 0][..]));
    let b = format!("{:?}", UserDataBlock::try_from(&[0x6Du8, 0, 0, 0, 0][..]));
    assert_ne!(a, b);
}
'''),
]

PAGE = '''#!/bin/bash
# Runs the page of the repository in the current directory in a small document model,
# performs the actions of session.json and compares what the page shows and copies.
here=$(cd "$(dirname "$0")" && pwd)
answer=$(timeout 60 node --experimental-vm-modules --no-warnings "$here/serve.mjs" "$(pwd)/docs" <"$here/session.json") || exit 2
echo "$answer" >&2
case $answer in *'"ok":true'*) exit 0 ;; esac
exit 1
'''


def session(key, results, actions):
    import json
    data = "10 5B 01 5C 16"
    r = [{"data": data, "format": f, "key": k, "ok": t} for f, k, t in results]
    a = [{"do": "type", "text": data}, *([{"do": "setkey", "text": key}] if key else []), *actions]
    q = {"actions": a, "results": r, "bytes": [[data, [0x10, 0x5B, 0x01, 0x5C, 0x16]]]}
    return {
        "session.json": json.dumps(q) + "\n",
        "dom.mjs": open("/verif/page/dom.mjs").read(),
        "serve.mjs": open("/verif/page/serve.mjs").read(),
    }


SEEDS += [
    dict(
        id="B49", property="C30", script=PAGE,
        files=session("00112233445566778899aabbccddeeff", [("json", "00112233445566778899aabbccddeeff", '{"a": 1}\n')], [{"do": "press", "format": "json"}]),
        edits=[("docs/index.html", "if (aesKey && !/^[0-9A-Fa-f]{32}$/.test(aesKey)) {", "if (aesKey && !/^[0-9A-F]{32}$/.test(aesKey)) {")],
        needs="a key typed in lower case",
        breaks="the page refuses keys written in lower case letters",
    ),
    dict(
        id="B50", property="C30", script=PAGE,
        files=session("", [("csv", None, "a,b\n1,\n")], [{"do": "press", "format": "csv"}, {"do": "copy"}]),
        edits=[("docs/index.html", "window._lastRawOutput = formattedResult;", "window._lastRawOutput = String(formattedResult).trim();")],
        needs="copying an output that ends with a line break",
        breaks="the copied text is not the rendered text",
    ),
    dict(
        id="B51", property="C32",
        edits=[(DI, "bcd_to_value_internal($data, $num_digits, $sign, lsb_order)", "bcd_to_value_internal($data, $num_digits, $sign, false)")],
        needs="a negative decimal number of variable length in a telegram of the other byte order",
        breaks="its digits are read in the usual order",
        demo='''
use m_bus_application_layer::{data_record::DataRecord, LongTplHeader, UserDataBlock};

fn main() {
    let head = [0x76, 0x78, 0x56, 0x34, 0x12, 0xAE, 0x0C, 1, 7, 0x55, 0, 0, 0];
    let Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) = UserDataBlock::try_from(&head[..]) else {
        panic!()
    };
    let area = [0x0D, 0x13, 0xD2, 0x12, 0x34];
    let swapped = [0x0D, 0x13, 0xD2, 0x34, 0x12];
    let long = DataRecord::try_from((&area[..], &long_tpl_header)).unwrap().data;
    let own = DataRecord::try_from(&swapped[..]).unwrap().data;
    assert_eq!(long, own);
}
'''),
    dict(
        id="B52", property="C32",
        edits=[(DR, '''        let end = self.data_record_header.get_size();
        self.raw_bytes
''', '''        let header = &self.data_record_header.raw_data_record_header;
        let end = header.data_information_block.get_size()
            + header.value_information_block.as_ref().map_or(0, |v| {
                1 + v.value_information_extension.as_ref().map_or(0, |e| e.len())
            });
        self.raw_bytes
''')],
        needs="a record whose unit is spelled out as text",
        breaks="the spelled unit is left out of the record header's bytes",
        demo='''
use m_bus_application_layer::data_record::DataRecord;

fn main() {
    let r = DataRecord::try_from(&[0x02, 0xFC, 0x74, 0x03, 0x41, 0x42, 0x43, 0x07, 0x08][..]).unwrap();
    let both = format!("{} {}", r.data_record_header_hex(), r.data_hex());
    let all: Vec<String> = r.raw_bytes().iter().map(|b| format!("{b:02X}")).collect();
    assert_eq!(both, all.join(" "));
}
'''),
    dict(
        id="B53", property="C33", features=["std", "decryption", "serde"],
        edits=[(ELL, "    pub receiver_address: Option<ReceiverAddress>,\n", '''    #[cfg_attr(
        feature = "serde",
        serde(skip_serializing_if = "Option::is_none", skip_deserializing)
    )]
    pub receiver_address: Option<ReceiverAddress>,
''')],
        needs="an extended link layer with a receiver's address that is written and read again",
        breaks="the receiver's address is lost when a serialized header is read",
        demo='''
use m_bus_application_layer::extended_link_layer::{EllFormat, ExtendedLinkLayer};

fn main() {
    let b: Vec<u8> = (1..=16).collect();
    let (e, _) = ExtendedLinkLayer::parse(&b, EllFormat::FormatIII).unwrap();
    let text = serde_json::to_string(&e).unwrap();
    assert_eq!(serde_json::from_str::<ExtendedLinkLayer>(&text).unwrap(), e);
}
'''),
    dict(
        id="B54", property="C34", features=["std", "decryption", "defmt"], deps='defmt = "1"',
        edits=[(VI, "        if !self.units.is_empty() {\n            defmt::write!(f, \", units: [\");", "        if self.labels.is_empty() && !self.units.is_empty() {\n            defmt::write!(f, \", units: [\");")],
        needs="a build with embedded logging and a value with both a label and a unit",
        breaks="the unit of a labelled value is not logged",
        demo=LOGGER + '''
fn main() {
    use m_bus_application_layer::data_record::DataRecord;
    let a = DataRecord::try_from(&[0x01, 0x13, 0x05][..]).unwrap();
    let b = DataRecord::try_from(&[0x01, 0x2B, 0x05][..]).unwrap();
    let (a, b) = (a.value_information().unwrap().clone(), b.value_information().unwrap().clone());
    let mut c = a.clone();
    c.units = b.units.clone();
    assert_ne!(format!("{a:?}"), format!("{c:?}"));
    assert_ne!(logged(&a), logged(&c));
}
'''),
    dict(
        id="B55", property="C34", features=["std", "decryption", "defmt"], deps='defmt = "1"',
        edits=[(VI, "            for (i, vife) in ext.iter().enumerate() {", "            for (i, vife) in ext.iter().take(2).enumerate() {")],
        needs="a build with embedded logging and three or more value information extensions",
        breaks="extensions after the second are not logged",
        demo=LOGGER + '''
fn main() {
    use m_bus_application_layer::value_information::ValueInformationBlock;
    let a = ValueInformationBlock::try_from(&[0x93, 0xBB, 0xBA, 0x3C][..]).unwrap();
    let b = ValueInformationBlock::try_from(&[0x93, 0xBB, 0xBA, 0x3B][..]).unwrap();
    assert_ne!(logged(&a), logged(&b));
}
'''),
]
