//! C02: work and memory are bounded by the input size.

use super::common::*;
use super::text::{rich_telegram, spell};
use crate::cost::{measure, Cost};
use crate::engine::*;
use crate::gen;
use m_bus_application_layer as app;
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::{annotate, output, serialize_mbus_data, WiredFrame, WirelessFrame};
use std::hint::black_box;

pub struct C02;

/// Allowed (steps, bytes) of a call per byte of input, each input counted as 64 bytes longer.
/// About ten times the largest cost seen on the unchanged tree.
fn bound(what: &str) -> (u64, u64) {
    match what {
        "wired frame" | "wireless frame" | "application layer" | "trailing checksum" | "format A" => (100, 100),
        "hex text" => (150, 100),
        "record iteration" => (700, 16_000),
        "typed" => (700, 16_000),
        "decode_bytes" | "decode_hex" | "decode_data_records" | "decode_data_records_hex" => (5_000, 18_000),
        "annotate" | "render:Annotated" | "render:AnnotatedText" | "legacy:annotated-legacy" | "legacy:hexview-legacy" => (7_000, 18_000),
        "render:Table" => (28_000, 40_000),
        "render:Yaml" => (80_000, 40_000),
        "legacy:csv-wide" | "legacy:json-legacy" | "legacy:yaml-legacy" => (140_000, 70_000),
        _ => (7_000, 40_000),
    }
}

fn judge(what: &str, len: usize, c: Cost, obs: &mut Obs) -> Verdict {
    obs.eval();
    let n = len as u64 + 64;
    let (steps, bytes) = bound(what);
    let moved = c.copied.max(c.total).max(c.peak);
    obs.max(&format!("steps per byte: {what}"), c.steps / n);
    obs.max(&format!("bytes per byte: {what}"), moved / n);
    if c.steps > steps * n {
        return Err(Fail::new(format!("steps:{what}"), format!("{what} of {len} bytes takes {} steps", c.steps)));
    }
    if moved > bytes * n {
        return Err(Fail::new(format!("memory:{what}"), format!("{what} of {len} bytes allocates or moves {moved} bytes: {c:?}")));
    }
    Ok(())
}

fn run<T>(what: &str, len: usize, obs: &mut Obs, f: impl FnOnce() -> T) -> Result<T, Fail> {
    // far beyond the bound the call is ended, so that endless loops end too
    let limit = 20 * bound(what).0 * (len as u64 + 64);
    let (r, c) = guard(what, || measure(limit, f))?;
    judge(what, len, c, obs)?;
    Ok(r)
}

fn unit(rng: &mut Rng) -> Vec<u8> {
    match rng.below(20) {
        0 => vec![0x2F],
        1 => vec![0x00, 0x13],
        2 => vec![0x8C, 0x00, 0x01],
        3 => vec![0x84 | rng.u8() & 0x40, 0x80],
        4 => vec![0x04, 0xFF],
        5 => vec![0x80 | rng.u8()],
        6 => vec![0x01, 0xFD, 0x17, 0x00],
        7 => vec![0x0D, 0x13, 0x00],
        8 => {
            let n = rng.usize(0xC0) as u8;
            let mut v = vec![0x0D, 0x13, n];
            v.extend(rng.bytes(n as usize));
            v
        }
        9 => vec![0x0F],
        10 => vec![0x1F],
        11 => vec![0x04, 0x7C, 0x03, b'a', b'b', b'c', 1, 2, 3, 4],
        12 => vec![rng.u8()],
        13 => {
            let mut v = gen::gen_record(rng, false);
            v.resize(v.len().min(40), 0);
            v
        }
        14 => vec![0x06, 0x6D, 0, 0, 0, 0, 0, 0],
        15 => vec![0x0D, 0xFD, 0x0C, 0xEF, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        16 => vec![0x04, 0x93, 0xFC, 0x01, 0, 0, 0, 0],
        17 => vec![0x00, 0x00],
        _ => gen::gen_record(rng, false),
    }
}

const HEADS: &[&[u8]] = &[
    &[],
    &[],
    &[0x72, 1, 0, 0, 0, 0x24, 0x23, 1, 7, 0, 0, 0, 0],
    &[0x7A, 0, 0, 0, 0],
    &[0x78],
    &[0x8C, 0, 1, 0x7A, 0, 0, 0, 0],
    &[0x76, 1, 0, 0, 0, 0x24, 0x23, 1, 7, 0, 0, 0, 0],
    &[0x73],
    &[0x68, 0xFF, 0xFF, 0x68, 0x08, 0x01, 0x72, 1, 0, 0, 0, 0x24, 0x23, 1, 7, 0, 0, 0, 0],
    &[0xFF, 0x44, 0x24, 0x23, 1, 0, 0, 0, 1, 7, 0x7A, 0, 0, 0, 0],
];

const LEGACY: &[&str] = &["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"];

impl C02 {
    fn records(&self, recs: app::DataRecords<'_>, len: usize, obs: &mut Obs) -> Verdict {
        let cap = len + 1;
        let items = run("record iteration", len, obs, || recs.take(cap).map(|r| black_box(r.is_ok())).count())?;
        obs.max("items", items as u64);
        if items > len {
            return Err(Fail::new("items", format!("iterating over {len} bytes of records gives {items} or more items")));
        }
        Ok(())
    }

    fn low(&self, b: &[u8], obs: &mut Obs) -> Verdict {
        let n = b.len();
        self.records(app::parse_data_records(b), n, obs)?;
        run("wired frame", n, obs, || black_box(WiredFrame::try_from(b).is_ok()))?;
        run("wireless frame", n, obs, || black_box(WirelessFrame::try_from(b).is_ok()))?;
        run("trailing checksum", n, obs, || black_box(wireless_mbus_link_layer::trailing_frame_crc_start(b)))?;
        run("format A", n, obs, || {
            let mut buf = vec![0; n];
            black_box(wireless_mbus_link_layer::strip_format_a_crcs(b, &mut buf).is_some())
        })?;
        let u = run("application layer", n, obs, || app::UserDataBlock::try_from(b))?;
        if let Ok(u) = u {
            if let Some(r) = u.data_records() {
                self.records(r, n, obs)?;
            }
        }
        Ok(())
    }

    fn whole(&self, b: &[u8], text: &str, key: Option<[u8; 16]>, all: bool, obs: &mut Obs) -> Verdict {
        let (n, t) = (b.len(), text.len());
        run("hex text", t, obs, || black_box(output::decode_hex_bytes(text).is_ok()))?;
        let o = run("decode_bytes", n, obs, || output::decode_bytes(b, &opts(key)).map(|d| d.records.len()).map_err(|e| e.code()))?;
        run("decode_hex", t, obs, || black_box(output::decode_hex(text, &opts(key)).is_ok()))?;
        let r = run("decode_data_records", n, obs, || output::decode_data_records(b).map(|r| r.len()).map_err(|e| e.code()))?;
        run("decode_data_records_hex", t, obs, || black_box(output::decode_data_records_hex(text).is_ok()))?;
        obs.feature(&format!("{o:?} {r:?} {}", n.ilog2()));
        for items in [o, r].into_iter().flatten() {
            if items > n {
                return Err(Fail::new("items", format!("{n} bytes give {items} records")));
            }
        }
        for (i, f) in FORMATS.iter().enumerate() {
            if !all && i != t % FORMATS.len() {
                continue;
            }
            let name = format!("render:{f:?}");
            run(&name, n, obs, || black_box(output::render_bytes(b, *f, &ropts(key, Some(100), true)).map(|s| s.len()).is_ok()))?;
        }
        for (i, f) in LEGACY.iter().enumerate() {
            if !all && i != t % LEGACY.len() {
                continue;
            }
            run(&format!("legacy:{f}"), t, obs, || black_box(serialize_mbus_data(text, f, key.as_ref()).len()))?;
        }
        run("annotate", n, obs, || black_box(annotate::annotate_and_render(b).is_ok()))?;
        run("typed", n, obs, || {
            black_box(MbusData::<WiredFrame>::try_from(b).is_ok());
            black_box(MbusData::<WirelessFrame>::try_from(b).is_ok());
        })?;
        Ok(())
    }
}

/// One, two and four times the same number of records: the second step may cost twice the first,
/// a little more where buffers grow by doubling.
impl C02 {
    fn growth(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let times: usize = case.text.parse().map_err(|_| Fail::new("harness", "no count"))?;
        let frame = |n: usize| {
            let mut b = vec![0x08, 0x01, 0x72, 1, 0, 0, 0, 0x24, 0x23, 1, 7, 0, 0, 0, 0];
            b.extend(case.bytes.repeat(n * times));
            let (len, sum) = (b.len() as u8, b.iter().fold(0u8, |a, x| a.wrapping_add(*x)));
            let mut f = vec![0x68, len, len, 0x68];
            f.append(&mut b);
            f.extend([sum, 0x16]);
            f
        };
        let frames = [frame(1), frame(2), frame(4)];
        let mut counts = vec![];
        for f in &frames {
            match guard("decode_bytes", || output::decode_bytes(f, &opts(None)))? {
                Ok(d) if d.decode_state == "complete" => counts.push(d.records.len()),
                _ => return Ok(()),
            }
        }
        if counts[0] != times || counts[1] != 2 * times || counts[2] != 4 * times {
            return Ok(());
        }
        let mut calls: Vec<(String, Box<dyn Fn(&[u8]) -> usize>)> = vec![("decode_bytes".into(), Box::new(|b| usize::from(output::decode_bytes(b, &opts(None)).is_ok())))];
        for f in FORMATS {
            calls.push((format!("render:{f:?}"), Box::new(move |b| output::render_bytes(b, f, &ropts(None, Some(100), true)).map_or(0, |s| s.len()))));
        }
        for f in LEGACY {
            calls.push((format!("legacy:{f}"), Box::new(move |b| serialize_mbus_data(&hex(b), f, None).len())));
        }
        calls.push(("annotate".into(), Box::new(|b| annotate::annotate_and_render(b).map_or(0, |s| s.len()))));
        for (what, call) in &calls {
            let mut c = vec![];
            for f in &frames {
                c.push(guard(what, || measure(u64::MAX, || black_box(call(f))))?.1);
            }
            obs.eval();
            // bytes are left out: buffers which grow by doubling move them in jumps
            let [a, b, d] = [c[0].steps, c[1].steps, c[2].steps];
            let (first, second) = (b.saturating_sub(a), d.saturating_sub(b));
            obs.max(&format!("growth in percent: {what}"), second * 100 / (2 * first).max(1));
            if second > first * 14 / 5 + 3_000 {
                return Err(Fail::new(
                    format!("growth:{what}"),
                    format!("{what} of {times}, {} and {} equal records takes {a}, {b} and {d} steps", 2 * times, 4 * times),
                ));
            }
        }
        obs.feature(&format!("growth {} {}", times.ilog2(), case.bytes.len()));
        Ok(())
    }
}

impl Monitor for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "distinct (outcome of the frame decoder, outcome of the record decoder, size class) whose cost was measured"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "work is the number of control-flow edges executed in the monitored crates and their dependencies plus the bytes moved by memcpy, memmove and memset; precompiled parts of the standard library are not counted",
            "for telegrams of one record repeated, the work of 2n further records may be at most 2.8 times that of n further records",
            "bounds are about ten times the largest cost seen on the unchanged tree",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(3_000, 40_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, tier: Tier) -> Case {
        match idx % 8 {
            7 => {
                let u = loop {
                    let u = match rng.below(8) {
                        0 => vec![0x01, 0x13, rng.u8()],
                        1 => vec![0x00, 0x13],
                        _ => gen::gen_record(rng, false),
                    };
                    if (2..=14).contains(&u.len()) {
                        break u;
                    }
                };
                let most = 235 / u.len() / 4;
                let mut c = Case::bytes("growth", u);
                c.text = format!("{}", most.max(1));
                c
            }
            0 | 1 | 4 | 5 => {
                let t = if idx % 8 == 0 { rich_telegram(rng.u64(), rng) } else { telegram(rng.u64(), rng) };
                let mut c = Case::bytes("telegram", t.bytes).with_key(t.key);
                c.text = if rng.chance(1, 2) { hex(&c.bytes) } else { spell(rng, &c.bytes) };
                c
            }
            2 | 6 => {
                // the fullest frames there are
                let mut recs = vec![];
                let u = unit(rng);
                let one = rng.chance(2, 3);
                while recs.len() < 230 {
                    let x = if one { u.clone() } else { unit(rng) };
                    if recs.len() + x.len() > 235 {
                        break;
                    }
                    recs.extend(x);
                }
                let mut c = Case::bytes("full", wrap_records(rng, &recs));
                c.text = hex(&c.bytes);
                c
            }
            _ => {
                // long inputs made of one or two repeated pieces
                let n = match rng.below(10) {
                    0 => tier.pick(60_000, 300_000),
                    1..=3 => 16_384,
                    _ => rng.usize(6_000) + 1,
                };
                let mut b = rng.pick(HEADS).to_vec();
                let (u, v) = (unit(rng), unit(rng));
                let mixed = rng.chance(1, 4);
                while b.len() < n {
                    b.extend(if mixed && rng.chance(1, 8) { &v } else { &u });
                }
                if rng.chance(1, 4) {
                    b.extend(unit(rng));
                }
                let mut c = Case::bytes("long", b);
                c.text = match rng.below(6) {
                    0 => spell(rng, &c.bytes),
                    1 => " ".repeat(n),
                    2 => "0x".repeat(n / 2),
                    3 => c.bytes.iter().map(|x| format!("0x{x:02X}, ")).collect(),
                    _ => hex(&c.bytes),
                };
                c
            }
        }
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        if case.bytes.is_empty() {
            return Ok(());
        }
        if case.kind == "growth" {
            return self.growth(case, obs);
        }
        self.low(&case.bytes, obs)?;
        self.whole(&case.bytes, &case.text, case.key, case.kind != "long" || case.bytes.len() < 4096, obs)?;
        obs.sample(|| format!("{} {} {}", case.kind, case.bytes.len(), hex(&case.bytes[..case.bytes.len().min(40)])));
        Ok(())
    }
}
