//! C01: no input can crash the parser.

use crate::corpus;
use crate::engine::*;
use crate::gen;
use m_bus_application_layer as app;
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::output;
use m_bus_parser::*;
use std::hint::black_box;

pub struct C01;

const FORMATS: &[&str] = &[
    "json", "yaml", "csv", "table", "mermaid", "xml", "annotated", "annotated-text",
];
const LEGACY: &[&str] = &[
    "json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy", "json", "yaml", "csv", "table",
    "table_format", "mermaid", "xml", "annotated", "hexview", "annotated-text", "text", "", "JSON ", "yml",
];

pub fn junk_text(rng: &mut Rng) -> String {
    let n = rng.usize(60);
    let alphabet: Vec<char> = "0123456789abcdefABCDEFxX :-\t\n,;gG\u{e9}\u{20ac}\u{1F600}\u{a0}\u{3000}\0+"
        .chars()
        .collect();
    (0..n).map(|_| *rng.pick(&alphabet)).collect()
}

impl Monitor for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a case counts when it reached a parser and is distinguished by (input class, frame kind, error code, application header kind, record count and record error); equal tuples count once"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "debug assertions and overflow checks are enabled in the monitored build",
            "half of the cases run in the default build, a quarter with plaintext units first, an eighth without decryption and an eighth under the address sanitizer",
            "worker stack is the default 8 MiB main-thread stack; memory limited to 6 GiB",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(60_000, 600_000)
    }
    fn variant(&self, shard: u64) -> &'static str {
        match shard {
            4 | 5 => "plain",
            6 => "nodec",
            7 => "asan",
            _ => "",
        }
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let key = if rng.chance(1, 3) { Some(rng.arr()) } else { None };
        let width = match idx / 8 % 997 {
            0 => *rng.pick(&[i64::MAX, -1, 65_535, 65_536, 4_000_000_000]),
            _ => rng.range(0, 160),
        };
        // every worker, and so every build, sees every class
        let mut c = match idx / 8 % 16 {
            0 => {
                let n = rng.usize(300);
                Case::bytes("random", rng.bytes(n))
            }
            1 => {
                let mut b = rng.pick(corpus::frames()).1.clone();
                gen::mutate(rng, &mut b);
                Case::bytes("corpus-mutated", b)
            }
            2 | 3 => {
                let mut b = rng.pick(corpus::frames()).1.clone();
                gen::mutate(rng, &mut b);
                gen::refit(&mut b);
                Case::bytes("corpus-refit", b)
            }
            4 => Case::bytes("frame", gen::gen_frame(rng, false)),
            5 | 6 => {
                let mut b = gen::gen_frame(rng, false);
                gen::mutate(rng, &mut b);
                gen::refit(&mut b);
                Case::bytes("frame-refit", b)
            }
            7 => {
                let mut b = gen::gen_frame(rng, false);
                gen::mutate(rng, &mut b);
                Case::bytes("frame-mutated", b)
            }
            8 => {
                let b = gen::gen_records(rng, 200, false);
                Case::bytes("records", b)
            }
            9 => {
                let mut b = gen::gen_records(rng, 200, false);
                gen::mutate(rng, &mut b);
                Case::bytes("records-mutated", b)
            }
            10 => {
                // short inputs around every start byte
                let mut b = vec![*rng.pick(&[0x68u8, 0x10, 0xE5, 0x72, 0x7A, 0x8C, 0x8D, 0x8E, 0x73, 0x50, 0xA0, 0x0D, 0x00, 0x01])];
                let n = rng.usize(14);
                b.extend(rng.bytes(n));
                Case::bytes("short", b)
            }
            11 => {
                // long chains of extension bytes
                let mut b = vec![];
                let n = 1 + rng.usize(40);
                if rng.chance(1, 2) {
                    b.push(*rng.pick(&[0x04u8, 0x0D, 0x0C, 0x84]));
                }
                for _ in 0..n {
                    let v = *rng.pick(gen::VIFE_COMMON);
                    b.push(0x80 | if rng.chance(1, 4) { rng.u8() } else { v });
                }
                let k = rng.usize(12);
                b.extend(rng.bytes(k));
                Case::bytes("chains", b)
            }
            12 => {
                let app = gen::gen_app(rng, 240, false);
                Case::bytes("app", app)
            }
            13 => {
                // nested extended link layers and large buffers
                let n = match rng.below(20) {
                    0 => 20_000 + rng.usize(40_000),
                    _ => rng.usize(120),
                };
                let mut b = vec![];
                for _ in 0..n {
                    b.extend_from_slice(&[0x8C, 0x00, 0x01]);
                }
                b.push(*rng.pick(&[0x78u8, 0x7A, 0x72]));
                let k = rng.usize(20);
                b.extend(rng.bytes(k));
                Case::bytes("nested", b)
            }
            14 => {
                let mut c = Case::new("text");
                c.text = if rng.chance(1, 2) {
                    junk_text(rng)
                } else {
                    let f = gen::gen_frame(rng, false);
                    let mut t = hex(&f);
                    if rng.chance(1, 2) && !t.is_empty() {
                        let mut v: Vec<char> = t.chars().collect();
                        let i = rng.usize(v.len());
                        v[i] = *rng.pick(&['g', ' ', '\u{e9}', 'x', ':', '\n', '0']);
                        t = v.into_iter().collect();
                    }
                    t
                };
                c
            }
            _ => {
                // random application layer with a valid wrapper
                let n = rng.usize(120);
                let mut a = rng.bytes(n);
                if !a.is_empty() {
                    a[0] = if rng.chance(1, 2) {
                        *rng.pick(&[0x72u8, 0x76, 0x7A, 0x78, 0x73, 0x8C, 0x8D, 0x8E, 0xA0, 0xA5, 0x50])
                    } else {
                        rng.u8()
                    };
                }
                if a.len() > 5 && rng.chance(1, 2) && (a[0] == 0x72 || a[0] == 0x76) {
                    for x in &mut a[1..5] {
                        *x &= 0x77;
                    }
                }
                let f = match rng.below(4) {
                    0 => {
                        let h = gen::gen_wireless_head(rng);
                        gen::wireless_plain(&h, &a)
                    }
                    1 => {
                        let h = gen::gen_wireless_head(rng);
                        gen::wireless_format_a(&h, &a)
                    }
                    _ => gen::wired(0x08, 1, &a),
                };
                Case::bytes("wrapped-random", f)
            }
        };
        c.key = key;
        c.nums = vec![width, rng.u64() as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let width = case.nums.first().copied().unwrap_or(100);
        let text = if case.kind == "text" { case.text.clone() } else { hex(b) };
        exercise_low(b, case, obs)?;
        // canonical decode and all renderings
        let opts = DecodeOptions {
            key: case.key,
            include_enrichment: width % 2 == 0,
        };
        let ropts = RenderOptions {
            decode: DecodeOptions {
                key: case.key,
                include_enrichment: width % 2 == 0,
            },
            table_width: if width == 0 { None } else { Some(width as usize) },
        };
        let d = guard("decode_bytes", || output::decode_bytes(b, &opts).map(|d| serde_json::to_string(&d)))?;
        obs.eval();
        let class = match &d {
            Ok(Ok(j)) => {
                let v: serde_json::Value = serde_json::from_str(j).unwrap_or_default();
                format!(
                    "{} {} {} {} {}",
                    v["frame"]["kind"],
                    v["transport"]["header_kind"],
                    v["records"].as_array().map_or(0, Vec::len),
                    v["diagnostics"].as_array().map_or(String::new(), |a| a.iter().map(|x| x["message"].to_string()).collect()),
                    v["security"]["mode"],
                )
            }
            Ok(Err(e)) => format!("json {e}"),
            Err(e) => format!("{} {}", e.code(), e),
        };
        obs.feature(&format!("{} {}", case.kind, class));
        obs.count(&format!("class:{}", case.kind));
        obs.sample(|| format!("{}: {} -> {}", case.kind, text, class));
        guard("decode_hex", || output::decode_hex(&text, &opts).is_ok())?;
        guard("decode_hex_bytes", || output::decode_hex_bytes(&text).is_ok())?;
        guard("decode_data_records", || output::decode_data_records(b).map(|r| serde_json::to_string(&r)).is_ok())?;
        guard("decode_data_records_hex", || output::decode_data_records_hex(&text).is_ok())?;
        obs.evals(4);
        // One rendering set per case: all formats for small inputs, two otherwise.
        let all = b.len() < 64 || case.nums.get(1).copied().unwrap_or(0) % 4 == 0;
        let pick = (case.nums.get(1).copied().unwrap_or(0) as u64 % 997) as usize;
        for (i, f) in FORMATS.iter().enumerate() {
            if !all && i != pick % FORMATS.len() && i != (pick / 8) % FORMATS.len() {
                continue;
            }
            let Ok(fmt) = guard("OutputFormat", || f.parse::<OutputFormat>())? else { continue };
            guard(&format!("render_bytes:{f}"), || output::render_bytes(b, fmt, &ropts).map(|s| s.len()).unwrap_or(0))?;
            guard(&format!("render_hex:{f}"), || output::render_hex(&text, fmt, &ropts).map(|s| s.len()).unwrap_or(0))?;
            obs.evals(2);
        }
        for (i, f) in LEGACY.iter().enumerate() {
            if !all && i != pick % LEGACY.len() {
                continue;
            }
            guard(&format!("serialize_mbus_data:{f}"), || serialize_mbus_data(&text, f, case.key.as_ref()).len())?;
            obs.eval();
        }
        guard("parse_to_mermaid", || mbus_data::parse_to_mermaid(&text, case.key.as_ref()).len())?;
        guard("parse_to_json", || mbus_data::parse_to_json(&text, case.key.as_ref()).len())?;
        guard("parse_to_csv", || mbus_data::parse_to_csv(&text, case.key.as_ref()).len())?;
        obs.evals(3);
        Ok(())
    }
}

fn exercise_records(recs: app::DataRecords<'_>, obs: &mut Obs, n: usize) -> Verdict {
    guard("record iteration", || {
        let mut items = 0usize;
        for r in recs {
            items += 1;
            if let Ok(r) = r {
                black_box(r.get_size());
                black_box(r.data_record_header_hex());
                black_box(r.data_hex());
                black_box(format!("{}", r.data));
                black_box(format!("{:?}", r));
                if let Some(d) = r.data_information() {
                    black_box(format!("{d}"));
                }
                if let Some(v) = r.value_information() {
                    black_box(format!("{v}"));
                }
                black_box(serde_json::to_string(&r).ok());
            }
            if items > n + 1 {
                break;
            }
        }
        black_box(items);
    })?;
    obs.eval();
    Ok(())
}

fn exercise_low(b: &[u8], case: &Case, obs: &mut Obs) -> Verdict {
    guard("WiredFrame", || {
        black_box(format!("{:?}", WiredFrame::try_from(b)));
        if let Err(e) = WiredFrame::try_from(b) {
            black_box(e.to_string());
        }
    })?;
    guard("WirelessFrame", || black_box(format!("{:?}", WirelessFrame::try_from(b))).len())?;
    guard("ManufacturerId", || black_box(format!("{:?}", ManufacturerId::try_from(b))).len())?;
    guard("trailing_frame_crc_start", || wireless_mbus_link_layer::trailing_frame_crc_start(b))?;
    let out_len = (case.nums.get(1).copied().unwrap_or(0) as u64 % 600) as usize;
    guard("strip_format_a_crcs", || {
        let mut buf = vec![0u8; out_len];
        wireless_mbus_link_layer::strip_format_a_crcs(b, &mut buf).map(<[u8]>::len);
        let mut buf = vec![0u8; b.len()];
        wireless_mbus_link_layer::strip_format_a_crcs(b, &mut buf).map(<[u8]>::len)
    })?;
    guard("MbusData wired", || {
        if let Ok(m) = MbusData::<WiredFrame>::try_from(b) {
            black_box(format!("{m:?}"));
            black_box(serde_json::to_string(&m).ok());
            black_box(serde_yaml::to_string(&m).ok());
        }
    })?;
    guard("MbusData wireless", || {
        if let Ok(m) = MbusData::<WirelessFrame>::try_from(b) {
            black_box(format!("{m:?}"));
            black_box(serde_json::to_string(&m).ok());
        }
    })?;
    guard("annotate_frame", || {
        if let Ok(s) = annotate::annotate_frame(b) {
            black_box(annotate::render_annotations(&s, b));
        }
        black_box(annotate::annotate_and_render(b).is_ok());
    })?;
    obs.evals(8);
    exercise_records(app::parse_data_records(b), obs, b.len())?;
    for start in [0usize, 10, 6] {
        let Some(sub) = b.get(start..) else { continue };
        let ud = guard("UserDataBlock", || app::UserDataBlock::try_from(sub))?;
        obs.eval();
        match ud {
            Ok(u) => {
                guard("UserDataBlock methods", || {
                    black_box(format!("{u:?}"));
                    black_box(u.is_encrypted());
                    black_box(u.variable_data_len());
                    black_box(serde_json::to_string(&u).ok());
                })?;
                if let Some(r) = guard("data_records", || u.data_records().map(|r| r.collect::<Vec<_>>().len()))? {
                    obs.feature(&format!("low {} {}", sub.first().copied().unwrap_or(0), r));
                }
                if let Some(recs) = u.data_records() {
                    exercise_records(recs, obs, b.len())?;
                }
                #[cfg(feature = "decryption")]
                guard("decrypt_variable_data", || {
                    struct P(Vec<u8>);
                    impl m_bus_core::decryption::KeyProvider for P {
                        fn get_key(
                            &self,
                            _c: &m_bus_core::decryption::KeyContext,
                        ) -> Result<&[u8], m_bus_core::decryption::DecryptionError> {
                            Ok(&self.0)
                        }
                    }
                    let klen = (out_len / 7) % 20;
                    for key in [vec![7u8; 16], vec![1; klen]] {
                        for n in [out_len, 0, 15, 16, 17, 512] {
                            let mut out = vec![0u8; n];
                            black_box(u.decrypt_variable_data(&P(key.clone()), &mut out).is_ok());
                            black_box(
                                u.decrypt_variable_data_with_context(
                                    &P(key.clone()),
                                    m_bus_core::ManufacturerCode::from_id(0x0421).unwrap(),
                                    (out_len as u32).wrapping_mul(0x01010101),
                                    1,
                                    m_bus_core::DeviceType::from(7),
                                    &mut out,
                                )
                                .is_ok(),
                            );
                        }
                    }
                })?;
                obs.evals(3);
            }
            Err(e) => {
                black_box(e.to_string());
            }
        }
    }
    // public building blocks on arbitrary bytes
    guard("ValueInformationBlock", || {
        if let Ok(v) = app::value_information::ValueInformationBlock::try_from(b) {
            black_box(v.get_size());
            if let Ok(v) = app::value_information::ValueInformation::try_from(&v) {
                black_box(format!("{v}"));
            }
        }
    })?;
    guard("DataInformationBlock", || {
        if let Ok(v) = app::data_information::DataInformationBlock::try_from(b) {
            black_box(v.get_size());
            if let Ok(v) = app::data_information::DataInformation::try_from(&v) {
                black_box(format!("{v}"));
                black_box(v.get_size());
            }
        }
    })?;
    guard("ExtendedLinkLayer", || {
        for f in [
            app::extended_link_layer::EllFormat::FormatI,
            app::extended_link_layer::EllFormat::FormatII,
            app::extended_link_layer::EllFormat::FormatIII,
        ] {
            black_box(format!("{:?}", app::extended_link_layer::ExtendedLinkLayer::parse(b, f)));
        }
    })?;
    obs.evals(3);
    guard("DataFieldCoding::parse", || {
        use app::data_information::DataFieldCoding as C;
        use app::data_information::SpecialFunctions as S;
        for c in [
            C::NoData, C::Integer8Bit, C::Integer16Bit, C::Integer24Bit, C::Integer32Bit, C::Real32Bit, C::Integer48Bit,
            C::Integer64Bit, C::SelectionForReadout, C::BCD2Digit, C::BCD4Digit, C::BCD6Digit, C::BCD8Digit,
            C::VariableLength, C::BCDDigit12, C::DateTypeG, C::DateTimeTypeF, C::DateTimeTypeJ, C::DateTimeTypeI,
            C::SpecialFunctions(S::ManufacturerSpecific), C::SpecialFunctions(S::MoreRecordsFollow),
            C::SpecialFunctions(S::IdleFiller), C::SpecialFunctions(S::GlobalReadoutRequest), C::SpecialFunctions(S::Reserved),
        ] {
            if let Ok(d) = c.parse(b, None) {
                black_box(format!("{d} {d:?}"));
            }
        }
    })?;
    obs.eval();
    Ok(())
}
