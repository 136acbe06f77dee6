//! Shared workloads and document access.

use crate::corpus;
use crate::engine::*;
use crate::gen;
use crate::model::{self, Config};
use m_bus_parser::output;
use m_bus_parser::DecodeOptions;
use serde_json::Value;

pub const PLAIN: bool = cfg!(feature = "plaintext");

/// General telegram mix: generated, corpus and mutated frames in every framing, with and without keys.
pub fn telegram(idx: u64, rng: &mut Rng) -> Case {
    let mut c = match idx % 12 {
        0..=3 if rng.chance(1, 12) => {
            // as long as a frame can be, or nearly
            let n = 256 - rng.usize(24);
            let area = gen::full_area(rng, n, PLAIN);
            Case::bytes("full", wrap_records(rng, &area))
        }
        0..=3 => Case::bytes("frame", gen::gen_frame(rng, PLAIN)),
        4..=5 => {
            let mut b = gen::gen_frame(rng, PLAIN);
            gen::mutate(rng, &mut b);
            gen::refit(&mut b);
            Case::bytes("frame-refit", b)
        }
        6 => {
            let mut b = gen::gen_frame(rng, PLAIN);
            gen::mutate(rng, &mut b);
            Case::bytes("frame-mutated", b)
        }
        7 => {
            let mut b = rng.pick(corpus::frames()).1.clone();
            gen::mutate(rng, &mut b);
            gen::refit(&mut b);
            Case::bytes("corpus-refit", b)
        }
        8 => {
            let fs = corpus::frames();
            let b = fs[(idx as usize / 12) % fs.len()].1.clone();
            Case::bytes("corpus", b)
        }
        9..=10 => {
            let s = gen::gen_secured(rng, PLAIN);
            let mut c = Case::bytes("secured", s.frame);
            c.key = if rng.chance(2, 3) { Some(s.key) } else { None };
            return c;
        }
        _ => {
            let s = gen::gen_secured(rng, PLAIN);
            let mut b = s.frame;
            gen::mutate(rng, &mut b);
            gen::refit(&mut b);
            let mut c = Case::bytes("secured-refit", b);
            c.key = if rng.chance(2, 3) { Some(s.key) } else { None };
            return c;
        }
    };
    if rng.chance(1, 6) {
        c.key = Some(rng.arr());
    }
    c
}

/// Telegrams that decode with cleartext records, wrapped in a random framing.
pub fn wrap_records(rng: &mut Rng, records: &[u8]) -> Vec<u8> {
    let mut app = match rng.below(6) {
        0..=2 => {
            let mut a = vec![0x72];
            let c = gen::cfg_clear(rng);
            a.extend(gen::long_header(rng, c));
            if rng.chance(1, 8) {
                a[5..7].copy_from_slice(&rng.arr::<2>());
            }
            a
        }
        3 => {
            let mut a = vec![if rng.chance(1, 4) { 0xA1 + rng.below(15) as u8 } else { 0x7A }];
            let c = gen::cfg_clear(rng);
            a.extend(gen::short_header(rng, c));
            a
        }
        4 => vec![0x8C, rng.u8(), rng.u8(), 0x78],
        _ => vec![0x78],
    };
    app.extend_from_slice(records);
    let framing = rng.below(6);
    // what does not fit is left out
    app.truncate(match framing {
        0..=2 => 253,
        4 => 244,
        _ => 246,
    });
    match framing {
        0..=2 => gen::wired(0x08, rng.u8(), &app),
        3 => {
            let h = gen::gen_wireless_head(rng);
            gen::wireless_plain(&h, &app)
        }
        4 => {
            let h = gen::gen_wireless_head(rng);
            gen::wireless_trailing(&h, &app)
        }
        _ => {
            let h = gen::gen_wireless_head(rng);
            gen::wireless_format_a(&h, &app)
        }
    }
}

pub fn opts(key: Option<[u8; 16]>) -> DecodeOptions {
    DecodeOptions {
        key,
        include_enrichment: false,
    }
}

/// The library's document as JSON, or its error code.
pub fn real_doc(b: &[u8], key: Option<[u8; 16]>) -> Result<Result<Value, String>, Fail> {
    let r = guard("decode_bytes", || output::decode_bytes(b, &opts(key)))?;
    Ok(match r {
        Ok(d) => Ok(guard("serialize", || serde_json::to_value(&d))?
            .map_err(|e| Fail::new("serialize", format!("document does not serialize: {e}")))?),
        Err(e) => Err(e.code().to_string()),
    })
}

pub fn model_doc(b: &[u8], key: Option<[u8; 16]>) -> Result<model::Decoded, &'static str> {
    model::decode(b, key.as_ref(), Config::current())
}

/// Both sides of the comparison; disagreement on accept or reject is a failure.
pub struct Pair {
    pub got: Value,
    pub want: model::Decoded,
}

pub fn both(case: &Case, obs: &mut Obs) -> Result<Option<Pair>, Fail> {
    let got = real_doc(&case.bytes, case.key)?;
    let want = model_doc(&case.bytes, case.key);
    obs.eval();
    match (got, want) {
        (Ok(g), Ok(w)) => Ok(Some(Pair {
            got: model::normalise(g),
            want: w,
        })),
        (Err(g), Err(w)) if g == w => Ok(None),
        (g, w) => Err(Fail::new(
            "outcome",
            format!(
                "{}: expected {}, got {}",
                hex(&case.bytes),
                w.map(|_| "a document").unwrap_or_else(|e| e),
                g.map(|_| "a document".to_string()).unwrap_or_else(|e| e)
            ),
        )),
    }
}

/// Compares one subtree of both documents.
pub fn same(path: &str, want: &Value, got: &Value, case: &Case) -> Verdict {
    match model::diff(want, got) {
        None => Ok(()),
        Some((p, m)) => Err(Fail::new(
            format!("{path}{}", model::path_class(&p)),
            format!("{}: {path}{p}: {m}", hex(&case.bytes)),
        )),
    }
}

pub use m_bus_parser::OutputFormat as Fmt;

pub const FORMATS: [Fmt; 8] = [
    Fmt::Table,
    Fmt::Json,
    Fmt::Yaml,
    Fmt::Csv,
    Fmt::Mermaid,
    Fmt::Xml,
    Fmt::Annotated,
    Fmt::AnnotatedText,
];

pub fn ropts(key: Option<[u8; 16]>, width: Option<usize>, enrichment: bool) -> m_bus_parser::RenderOptions {
    m_bus_parser::RenderOptions {
        decode: DecodeOptions {
            key,
            include_enrichment: enrichment,
        },
        table_width: width,
    }
}

/// One rendering, or the error code.
pub fn render(b: &[u8], key: Option<[u8; 16]>, f: Fmt, width: Option<usize>, enrichment: bool) -> Result<Result<String, String>, Fail> {
    let o = ropts(key, width, enrichment);
    Ok(guard(f.as_str(), || output::render_bytes(b, f, &o))?.map_err(|e| e.code().to_string()))
}

/// Strict RFC 4180 reader; the error says what is not CSV.
pub fn read_csv(s: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut it = s.chars().peekable();
    if s.is_empty() {
        return Ok(rows);
    }
    loop {
        let mut cell = String::new();
        if it.peek() == Some(&'"') {
            it.next();
            loop {
                match it.next() {
                    None => return Err("quoted cell is not closed".into()),
                    Some('"') if it.peek() == Some(&'"') => {
                        it.next();
                        cell.push('"');
                    }
                    Some('"') => break,
                    Some(c) => cell.push(c),
                }
            }
            if !matches!(it.peek(), None | Some(',') | Some('\n') | Some('\r')) {
                return Err("text after a closing quote".into());
            }
        } else {
            while let Some(&c) = it.peek() {
                if matches!(c, ',' | '\n' | '\r') {
                    break;
                }
                if c == '"' {
                    return Err("quote inside an unquoted cell".into());
                }
                cell.push(c);
                it.next();
            }
        }
        row.push(cell);
        match it.next() {
            Some(',') => continue,
            Some('\r') => {
                if it.next() != Some('\n') {
                    return Err("bare carriage return".into());
                }
            }
            Some('\n') | None => {}
            Some(_) => unreachable!(),
        }
        rows.push(std::mem::take(&mut row));
        if it.peek().is_none() {
            return Ok(rows);
        }
    }
}

/// Header and data row of a CSV rendering by column name.
pub fn csv_cells(s: &str) -> Result<Vec<(String, String)>, String> {
    let rows = read_csv(s)?;
    if rows.len() != 2 {
        return Err(format!("{} rows", rows.len()));
    }
    if rows[0].len() != rows[1].len() {
        return Err(format!("{} columns but {} cells", rows[0].len(), rows[1].len()));
    }
    Ok(rows[0].iter().cloned().zip(rows[1].iter().cloned()).collect())
}

pub fn diag_codes(doc: &Value) -> Vec<String> {
    doc["diagnostics"]
        .as_array()
        .map(|a| a.iter().filter_map(|d| d["code"].as_str().map(str::to_string)).collect())
        .unwrap_or_default()
}
