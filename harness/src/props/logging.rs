//! C34: values logged through defmt by a build for embedded use.

use super::common::*;
use crate::child;
use crate::engine::*;
use crate::gen;
use m_bus_parser::user_data::{parse_data_records, UserDataBlock};
use std::collections::BTreeMap;
use std::process::Command;

/// Entries (type, debug text, logged bytes) of each input.
fn logged(inputs: &[Vec<u8>]) -> Result<Vec<Vec<(String, String, String)>>, Fail> {
    let line = inputs.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ");
    let t = child::ask("log", &line, || Command::new("/verif/target/log/debug/mbuslog"))?;
    let all: Vec<Vec<_>> = t
        .split('\x1d')
        .map(|part| {
            part.split('\x1e')
                .filter(|e| !e.is_empty())
                .map(|e| {
                    let mut f = e.split('\t').map(str::to_string);
                    (f.next().unwrap_or_default(), f.next().unwrap_or_default(), f.next().unwrap_or_default())
                })
                .collect()
        })
        .collect();
    if all.len() != inputs.len() {
        return Err(Fail::new("harness:log", format!("{} answers to {} inputs", all.len(), inputs.len())));
    }
    Ok(all)
}

/// The input, inputs that differ from it in one place, and the input again.
fn family(b: &[u8]) -> Vec<Vec<u8>> {
    let rng = &mut Rng::new(fnv(b));
    let mut all = vec![b.to_vec()];
    for _ in 0..14 {
        let mut c = b.to_vec();
        let i = rng.usize(c.len());
        match rng.below(8) {
            0 => c.truncate(i.max(2)),
            1 => {
                c.pop();
                c.push(rng.u8());
            }
            2..=4 => c[i] ^= 1 << rng.below(8),
            _ => c[i] = rng.u8(),
        }
        if rng.chance(1, 3) {
            gen::refit(&mut c);
        }
        all.push(c);
    }
    all.push(b.to_vec());
    all
}

pub struct C34;

impl Monitor for C34 {
    fn id(&self) -> &'static str {
        "C34"
    }
    fn rule(&self) -> &'static str {
        "distinct (type, first words of its debug text) of values logged"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the build with logging runs on the host with a logger that keeps the bytes; a target's own logger is not observed",
            "logged bytes are compared with each other, not decoded",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(30_000, 600_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = match idx % 4 {
            0 => telegram(rng.u64(), rng),
            1 => Case::bytes("records", gen::gen_records(rng, 60, PLAIN)),
            2 => Case::bytes("frame", gen::short_frame(rng.u8(), rng.u8())),
            _ => {
                let mut b = vec![*rng.pick(&[0x50, 0x72, 0x73, 0x76, 0x78, 0x7A, 0x8C, 0x8D, 0x8E, 0xA0])];
                b.extend(gen::bcd_bytes(rng, 20));
                Case::bytes("application", b)
            }
        };
        while c.bytes.len() < 3 {
            c.bytes.push(rng.u8());
        }
        c.key = None;
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let inputs = family(&case.bytes);
        let all = logged(&inputs)?;
        let h = |i: usize| hex(&inputs[i]);
        if all.first() != all.last() {
            return Err(Fail::new("log-unstable", format!("{} is logged differently the second time", h(0))));
        }
        let mut seen: BTreeMap<(&str, &str), (&str, usize)> = BTreeMap::new();
        for (i, entries) in all.iter().enumerate() {
            for (ty, debug, bytes) in entries {
                obs.eval();
                obs.feature(&format!("{ty} {}", debug.split([' ', '(']).take(2).collect::<Vec<_>>().join(" ")));
                if bytes.is_empty() {
                    return Err(Fail::new(format!("log-empty-{ty}"), format!("{}: nothing is logged for {debug}", h(i))));
                }
                let (first, j) = *seen.entry((ty, bytes)).or_insert((debug, i));
                if first != debug {
                    return Err(Fail::new(format!("log-same-{ty}"), format!("{} and {}: {first} and {debug} are logged as the same {bytes}", h(j), h(i))));
                }
            }
            // logging changes nothing about the values
            let b = &inputs[i][..];
            let mine: Vec<String> = parse_data_records(b).map(|r| r.map_or_else(|e| format!("{e:?}"), |r| format!("{r:?}"))).collect();
            let theirs: Vec<&String> = entries.iter().filter(|e| e.0 == "DataRecord" || e.0 == "DataRecordError").map(|e| &e.1).collect();
            obs.eval();
            if !mine.iter().eq(theirs) {
                return Err(Fail::new("log-record", format!("{}: the build with logging reads other records", h(i))));
            }
            let mine = UserDataBlock::try_from(b).map_or_else(|e| format!("{e:?}"), |u| format!("{u:?}"));
            if !entries.iter().any(|e| e.1 == mine) {
                return Err(Fail::new("log-block", format!("{}: {mine} is not logged", h(i))));
            }
        }
        obs.sample(|| format!("{} and {} relatives: {} values logged", h(0), inputs.len() - 2, seen.len()));
        Ok(())
    }
}
