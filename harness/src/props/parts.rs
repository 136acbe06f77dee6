//! C32: records read piece by piece through the typed API.

use crate::engine::*;
use crate::gen;
use m_bus_parser::user_data::data_information::*;
use m_bus_parser::user_data::data_record::*;
use m_bus_parser::user_data::value_information::*;
use m_bus_parser::user_data::{parse_data_records, parse_data_records_with_header, LongTplHeader, UserDataBlock};
use std::fmt::Debug;

/// Equality that also holds for values which are not numbers.
fn same<T: Debug + PartialEq>(a: &T, b: &T) -> bool {
    a == b || format!("{a:?}") == format!("{b:?}")
}

fn header(lsb: bool) -> Result<LongTplHeader, Fail> {
    let t = [if lsb { 0x76 } else { 0x72 }, 0x78, 0x56, 0x34, 0x12, 0xAE, 0x0C, 1, 7, 0x55, 0, 0, 0];
    match UserDataBlock::try_from(&t[..]) {
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. }) => Ok(long_tpl_header),
        other => Err(Fail::new("header", format!("{other:?}"))),
    }
}

/// Where the bytes of a decimal number lie within a record's data, with its place in the record.
fn bcd(coding: &DataFieldCoding, data: &[u8]) -> Option<std::ops::Range<usize>> {
    Some(match coding {
        DataFieldCoding::BCD2Digit => 0..1,
        DataFieldCoding::BCD4Digit => 0..2,
        DataFieldCoding::BCD6Digit => 0..3,
        DataFieldCoding::BCD8Digit => 0..4,
        DataFieldCoding::BCDDigit12 => 0..6,
        DataFieldCoding::VariableLength => match data.first()? {
            n @ 0xC0..=0xC9 => 1..1 + usize::from(n - 0xC0),
            n @ 0xD0..=0xD9 => 1..1 + usize::from(n - 0xD0),
            _ => return None,
        },
        _ => return None,
    })
}

pub struct C32;

impl Monitor for C32 {
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "distinct (data coding, value information coding, block sizes) of records read whole and in parts, and errors observed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["values themselves are judged by C07 to C11; here the ways of reading them are compared"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(900_000, 20_000_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut area = if idx < 256 * 8 {
            // every data information byte
            let mut b = vec![(idx % 256) as u8];
            if b[0] & 0x80 != 0 {
                let n = rng.usize(4);
                b.extend((0..n).map(|_| rng.u8() | 0x80));
                b.push(rng.u8() & 0x7F);
            }
            b.push(rng.u8());
            b.extend(gen::bcd_bytes(rng, 40));
            b
        } else if rng.chance(1, 10) {
            let n = rng.usize(60);
            rng.bytes(n)
        } else {
            gen::gen_records(rng, 120, super::common::PLAIN)
        };
        match rng.below(8) {
            0 => {
                let n = rng.usize(area.len() + 1);
                area.truncate(n);
            }
            1 => {
                let n = rng.usize(12);
                area.extend(rng.bytes(n));
            }
            2 if !area.is_empty() => {
                let i = rng.usize(area.len());
                area[i] = rng.u8();
            }
            3 if rng.chance(1, 16) => {
                // longer than any frame
                area.push(*rng.pick(&[0x0Fu8, 0x1F, 0x2F]));
                let n = rng.usize(900);
                area.extend(rng.bytes(n));
            }
            _ => {}
        }
        Case::bytes("area", area)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let area = &case.bytes[..];
        let bad = |s: &str, at: usize, m: String| Err(Fail::new(s, format!("{} at {at}: {m}", hex(area))));
        let headers = [header(false)?, header(true)?];
        let mut it = parse_data_records(area);
        let mut plain = parse_data_records_with_header(area, &headers[0]);
        let mut all = vec![];
        loop {
            let before = it.offset();
            let item = guard("next", || it.next())?;
            let other = guard("next with header", || plain.next())?;
            obs.eval();
            if !same(&item, &other) || it.offset() != plain.offset() {
                return bad("parts-header", before, format!("{item:?} against {other:?}"));
            }
            let Some(item) = item else { break };
            let rest = &area[before.min(area.len())..];
            let skip = rest.iter().take_while(|b| special(**b) == Special::Skipped).count();
            let start = before + skip;
            let rest = &rest[skip.min(rest.len())..];
            let alone = guard("DataRecord", || DataRecord::try_from(rest))?;
            obs.eval();
            if !same(&alone, &item) {
                return bad("parts-alone", start, format!("{alone:?} against {item:?}"));
            }
            let r = match item {
                Ok(r) => r,
                Err(e) => {
                    obs.feature(&format!("error {e:?}"));
                    if special(rest[0]) == Special::None && it.offset() != start {
                        return bad("parts-offset", start, format!("stopped at {} after {e:?}", it.offset()));
                    }
                    if it.next().is_some() {
                        return bad("parts-end", start, format!("goes on after {e:?}"));
                    }
                    break;
                }
            };
            if it.offset() != start + r.get_size() {
                return bad("parts-offset", start, format!("{} after a record of {} bytes", it.offset(), r.get_size()));
            }
            record(area, start, rest, &r, &headers, obs)?;
            all.push(r);
        }
        let listed: Vec<DataRecord> = guard("Vec", || Vec::from(parse_data_records(area)))?;
        obs.eval();
        if !same(&listed, &all) {
            return bad("parts-list", 0, format!("{} records listed, {} iterated", listed.len(), all.len()));
        }
        if case.bytes.len() % 4 == 0 {
            let a = guard("serde", || serde_json::to_value(parse_data_records(area)))?.map_err(|e| e.to_string());
            let b = serde_json::to_value(&all).map_err(|e| e.to_string());
            obs.eval();
            if a != b {
                return bad("parts-serde", 0, "the serialized iterator differs from its records".into());
            }
        }
        obs.sample(|| format!("{}: {} records", hex(area), all.len()));
        Ok(())
    }
}

#[derive(PartialEq, Debug)]
enum Special {
    None,
    Skipped,
    Rest,
    Single,
}

fn special(dif: u8) -> Special {
    match dif {
        0x0F | 0x1F => Special::Rest,
        0x7F => Special::Single,
        b if b & 15 == 15 => Special::Skipped,
        _ => Special::None,
    }
}

fn record(area: &[u8], start: usize, rest: &[u8], r: &DataRecord, headers: &[LongTplHeader; 2], obs: &mut Obs) -> Verdict {
    let bad = |s: &str, m: String| Err(Fail::new(s, format!("{} at {start}: {m}", hex(area))));
    let size = r.get_size();
    if r.raw_bytes != &rest[..size] || r.raw_bytes() != r.raw_bytes || size == 0 {
        return bad("parts-raw", format!("raw bytes {}", hex(r.raw_bytes)));
    }
    // blocks
    let dib = guard("DataInformationBlock", || DataInformationBlock::try_from(rest))?;
    let Ok(dib) = dib else { return bad("parts-dib", format!("{dib:?}")) };
    let n = if rest[0] & 0x80 == 0 { 0 } else { 1 + rest[1..].iter().take_while(|b| **b & 0x80 != 0).count() };
    obs.eval();
    if dib.get_size() != n + 1 || dib.data_information_field.data != rest[0] {
        return bad("parts-dib", format!("{dib:?} of {} bytes", dib.get_size()));
    }
    let field = DataInformationField::from(rest[0]);
    let kind = match (rest[0], field.is_special_function(), field.special_function()) {
        (b, false, _) if b & 15 != 15 => true,
        (0x0F, true, SpecialFunctions::ManufacturerSpecific) | (0x1F, true, SpecialFunctions::MoreRecordsFollow) | (0x7F, true, SpecialFunctions::GlobalReadoutRequest) => true,
        _ => false,
    };
    if !kind {
        return bad("parts-special", format!("{field:?} is {:?}", field.special_function()));
    }
    if dib.data_information_field_extension.is_some() != (n > 0) {
        return bad("parts-dife", format!("{dib:?}"));
    }
    if let Some(e) = &dib.data_information_field_extension {
        let forth: Vec<u8> = e.clone().map(|x| x.data).collect();
        let mut back: Vec<u8> = e.clone().rev().map(|x| x.data).collect();
        back.reverse();
        let mut ends = e.clone();
        ends.next_back();
        if forth != rest[1..=n] || back != forth || e.len() != n || ends.len() != n - 1 || e.size_hint() != (n, Some(n)) {
            return bad("parts-dife", format!("extensions {forth:02X?} and {back:02X?}"));
        }
    }
    let raw = guard("RawDataRecordHeader", || RawDataRecordHeader::try_from(rest))?;
    let whole = guard("DataRecordHeader", || DataRecordHeader::try_from(rest))?;
    let (Ok(raw), Ok(whole)) = (raw, whole) else { return bad("parts-header", "the header alone is refused".into()) };
    let mine = &r.data_record_header;
    obs.evals(2);
    if raw != mine.raw_data_record_header || !same(&whole, mine) || raw.data_information_block != dib {
        return bad("parts-header", format!("{raw:?} against {mine:?}"));
    }
    let processed = guard("ProcessedDataRecordHeader", || ProcessedDataRecordHeader::try_from(&raw))?;
    if processed.as_ref() != Ok(&mine.processed_data_record_header) {
        return bad("parts-processed", format!("{processed:?}"));
    }
    let mut vsize = 0;
    match &raw.value_information_block {
        None if special(rest[0]) != Special::None => {}
        Some(v) if special(rest[0]) == Special::None => {
            let vib = guard("ValueInformationBlock", || ValueInformationBlock::try_from(&rest[n + 1..]))?;
            vsize = v.get_size();
            obs.eval();
            if vib.as_ref() != Ok(v) || n + 1 + vsize > size || v.value_information.data != rest[n + 1] {
                return bad("parts-vib", format!("{vib:?} against {v:?}"));
            }
            let vi = guard("ValueInformation", || ValueInformation::try_from(v))?;
            if vi.ok().as_ref() != mine.processed_data_record_header.value_information.as_ref() {
                return bad("parts-vi", format!("{v:?}"));
            }
        }
        v => return bad("parts-vib", format!("{v:?}")),
    }
    let hsize = n + 1 + vsize;
    if mine.get_size() != hsize {
        return bad("parts-size", format!("header of {} bytes, blocks of {hsize}", mine.get_size()));
    }
    let spaced = |b: &[u8]| b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ");
    if r.data_record_header_hex() != spaced(&rest[..hsize]) || r.data_hex() != spaced(&rest[hsize..size]) {
        return bad("parts-hex", format!("{:?} and {:?}", r.data_record_header_hex(), r.data_hex()));
    }
    if r.value() != r.data.value.as_ref() && !same(&r.value(), &r.data.value.as_ref())
        || r.data_information() != mine.processed_data_record_header.data_information.as_ref()
        || r.value_information() != mine.processed_data_record_header.value_information.as_ref()
    {
        return bad("parts-access", "an accessor differs from its field".into());
    }
    // data information on its own: everything but the coding that dates change
    let di = guard("DataInformation", || DataInformation::try_from(&dib))?;
    let Some(info) = r.data_information() else { return bad("parts-di", "no data information".into()) };
    match di {
        Ok(d) => {
            let dated = matches!(
                info.data_field_coding,
                DataFieldCoding::DateTypeG | DataFieldCoding::DateTimeTypeF | DataFieldCoding::DateTimeTypeI | DataFieldCoding::DateTimeTypeJ
            );
            if (DataInformation { data_field_coding: info.data_field_coding.clone(), ..d.clone() }) != *info || !dated && d.data_field_coding != info.data_field_coding || d.size != n + 1 {
                return bad("parts-di", format!("{d:?} against {info:?}"));
            }
        }
        Err(e) => return bad("parts-di", format!("{e:?}")),
    }
    // data on its own
    let data = guard("DataFieldCoding", || info.data_field_coding.parse(&rest[hsize..], None))?;
    let plain = guard("DataFieldCoding", || info.data_field_coding.parse(&rest[hsize..], Some(&headers[0])))?;
    obs.evals(2);
    match (&data, &plain) {
        (Ok(d), Ok(p)) if same(d, &r.data) && same(p, &r.data) && d.get_size() == size - hsize => {}
        _ => return bad("parts-data", format!("{data:?} against {:?}", r.data)),
    }
    // its own bytes and nothing else; less is not enough
    let own = guard("DataRecord", || DataRecord::try_from(r.raw_bytes))?;
    let with = guard("DataRecord with header", || DataRecord::try_from((rest, &headers[0])))?;
    obs.evals(2);
    if !own.is_ok_and(|o| same(&o, r)) || !with.is_ok_and(|o| same(&o, r)) {
        return bad("parts-own", "the record's own bytes read differently".into());
    }
    if special(rest[0]) == Special::None {
        for k in 0..size {
            let cut = guard("DataRecord", || DataRecord::try_from(&rest[..k]).is_ok())?;
            obs.eval();
            if cut {
                return bad("parts-cut", format!("{k} of {size} bytes are a record"));
            }
        }
    }
    // the other byte order turns decimal numbers round and nothing else
    let mut turned = r.raw_bytes.to_vec();
    if let Some(d) = bcd(&info.data_field_coding, &r.raw_bytes[hsize..]) {
        turned[hsize + d.start..hsize + d.end].reverse();
    }
    let lsb = guard("DataRecord with header", || DataRecord::try_from((&turned[..], &headers[1])))?;
    let list = guard("next with header", || parse_data_records_with_header(&turned, &headers[1]).next())?;
    obs.evals(2);
    let fits = |x: &DataRecord| same(&x.data, &r.data) && same(&x.data_record_header, mine);
    if !lsb.as_ref().is_ok_and(fits) || !matches!(&list, Some(Ok(x)) if fits(x)) {
        return bad("parts-order", format!("{} with the other byte order gives {lsb:?}", hex(&turned)));
    }
    obs.feature(&format!("{:?} {:?} {n} {vsize}", info.data_field_coding, raw.value_information_block.map(|v| ValueInformationCoding::from(&v.value_information))));
    Ok(())
}
