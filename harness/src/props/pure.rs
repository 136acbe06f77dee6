//! C22: results depend on nothing but bytes and options.

use super::common::*;
use crate::engine::*;
use crate::gen;
use m_bus_parser::mbus_data::serialize_mbus_data;
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::{annotate, output, WiredFrame};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

pub struct C22;

type Input = (Vec<u8>, Option<[u8; 16]>);

const LEGACY: [&str; 5] = ["json-legacy", "yaml-legacy", "csv-wide", "annotated-legacy", "hexview-legacy"];

/// Hash of every result the library gives for one telegram.
pub fn fingerprint(b: &[u8], key: Option<[u8; 16]>) -> Vec<(String, u64)> {
    let mut v = vec![];
    let mut put = |n: &str, s: String| v.push((n.to_string(), fnv(s.as_bytes())));
    let o = m_bus_parser::DecodeOptions {
        key,
        include_enrichment: true,
    };
    put("document", match output::decode_bytes(b, &o) {
        Ok(d) => serde_json::to_string(&d).unwrap_or_default(),
        Err(e) => format!("{}/{e}", e.code()),
    });
    for f in FORMATS {
        put(f.as_str(), match output::render_bytes(b, f, &ropts(key, Some(100), true)) {
            Ok(s) => s,
            Err(e) => format!("{}/{e}", e.code()),
        });
    }
    // the same bytes under other options
    for (f, width, enrich) in [(Fmt::Json, None, false), (Fmt::Csv, None, false), (Fmt::Table, Some(60), true), (Fmt::Table, Some(180), false)] {
        put(&format!("{} {width:?} {enrich}", f.as_str()), match output::render_bytes(b, f, &ropts(key, width, enrich)) {
            Ok(s) => s,
            Err(e) => format!("{}/{e}", e.code()),
        });
    }
    let h = hex(b);
    for f in LEGACY {
        put(f, serialize_mbus_data(&h, f, key.as_ref()));
    }
    // the same telegram as text
    put("document from text", match output::decode_hex(&h, &o) {
        Ok(d) => serde_json::to_string(&d).unwrap_or_default(),
        Err(e) => format!("{}/{e}", e.code()),
    });
    for f in [Fmt::Json, Fmt::Xml, Fmt::Csv] {
        put(&format!("{} from text", f.as_str()), match output::render_hex(&h, f, &ropts(key, None, true)) {
            Ok(s) => s,
            Err(e) => format!("{}/{e}", e.code()),
        });
    }
    put("bytes from text", format!("{:?}", output::decode_hex_bytes(&h).map_err(|e| e.to_string())));
    put("records from text", match output::decode_data_records_hex(&h) {
        Ok(d) => serde_json::to_string(&d).unwrap_or_default(),
        Err(e) => format!("{}/{e}", e.code()),
    });
    put("annotate and render", format!("{:?}", annotate::annotate_and_render(b)));
    put("annotate", format!("{:?}", annotate::annotate_frame(b)));
    put("records", match output::decode_data_records(b) {
        Ok(d) => serde_json::to_string(&d).unwrap_or_default(),
        Err(e) => format!("{}/{e}", e.code()),
    });
    // low-level values: iterating twice from the same parsed value
    let low = |d: &[u8]| {
        let mut s = String::new();
        if let Ok(m) = MbusData::<WiredFrame>::try_from(d) {
            s += &format!("{:?}", m.frame);
            if let Some(r) = &m.data_records {
                let once: Vec<String> = r.clone().map(|x| format!("{x:?}")).collect();
                let again: Vec<String> = r.clone().map(|x| format!("{x:?}")).collect();
                if once != again {
                    s += "iterations differ";
                }
                s += &once.join(";");
            }
        }
        if let Ok(m) = MbusData::<m_bus_parser::WirelessFrame>::try_from(d) {
            s += &format!("{:?}", m.frame);
            if let Some(r) = &m.data_records {
                let once: Vec<String> = r.clone().map(|x| format!("{x:?}")).collect();
                let again: Vec<String> = r.clone().map(|x| format!("{x:?}")).collect();
                if once != again {
                    s += "iterations differ";
                }
                s += &once.join(";");
            }
        }
        s
    };
    let one = low(b);
    if one.contains("iterations differ") {
        v.push(("iterations differ".into(), fnv(one.as_bytes())));
    }
    v.push(("low-level".into(), fnv(one.as_bytes())));
    v
}

/// Fingerprint in a new process with an unusual environment.
fn fresh(i: &Input, env: usize) -> Result<String, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail::new("harness:exe", e.to_string()))?;
    let mut c = Command::new(exe);
    c.arg("fingerprint").env_clear();
    match env {
        0 => {}
        1 => {
            c.env("COLUMNS", "37").env("LINES", "5").env("TERM", "dumb").env("NO_COLOR", "1").env("LC_ALL", "de_DE.UTF-8");
        }
        _ => {
            c.env("TZ", "Asia/Tokyo").env("LANG", "C").env("RUST_BACKTRACE", "1").env("HOME", "/nonexistent").env("COLUMNS", "400");
        }
    }
    let h = |e: std::io::Error| Fail::new("harness:child", e.to_string());
    let mut p = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(h)?;
    let line = format!("{} {}\n", hex(&i.0), i.1.map(|k| hex(&k)).unwrap_or_default());
    p.stdin.take().unwrap().write_all(line.as_bytes()).map_err(h)?;
    let mut s = String::new();
    p.stdout.take().unwrap().read_to_string(&mut s).map_err(h)?;
    p.wait().map_err(h)?;
    Ok(s)
}

pub fn show_fingerprint(f: &[(String, u64)]) -> String {
    f.iter().map(|(n, h)| format!("{n} {h:016x}\n")).collect()
}

/// `mbusmon fingerprint`: one line from standard input.
pub fn child() {
    let mut s = String::new();
    std::io::stdin().read_line(&mut s).expect("input");
    let mut w = s.trim_end_matches('\n').split(' ');
    let b = unhex(w.next().unwrap_or("")).expect("hex");
    let key = w.next().filter(|k| !k.is_empty()).map(|k| unhex(k).expect("hex").try_into().expect("16 bytes"));
    print!("{}", show_fingerprint(&fingerprint(&b, key)));
}

/// Telegrams that resemble each other, so that confusing two of them shows.
fn family(rng: &mut Rng, n: usize) -> Vec<Input> {
    let mut v: Vec<Input> = vec![];
    while v.len() < n {
        let c = telegram(rng.u64(), rng);
        if c.bytes.is_empty() || c.bytes.len() > 300 {
            continue;
        }
        let base = (c.bytes, c.key);
        v.push(base.clone());
        for _ in 0..rng.usize(4) {
            let mut x = base.clone();
            match rng.below(5) {
                0 => x.1 = Some(rng.arr()),
                1 => x.1 = None,
                2 => {
                    let at = rng.usize(x.0.len());
                    x.0[at] ^= 1 << rng.below(8);
                    gen::refit(&mut x.0);
                }
                3 => {
                    // same length, same first and last bytes
                    if x.0.len() > 20 {
                        let at = 8 + rng.usize(x.0.len() - 12);
                        let to = 8 + rng.usize(x.0.len() - 12);
                        x.0.swap(at, to);
                        gen::refit(&mut x.0);
                    }
                }
                _ => {
                    let k = x.0.len();
                    x.0.truncate(k - 1);
                    gen::refit(&mut x.0);
                }
            }
            v.push(x);
        }
    }
    v.truncate(n);
    v
}

fn check(what: &str, i: &Input, got: &[(String, u64)], want: &str) -> Verdict {
    let got = show_fingerprint(got);
    if got == want {
        return Ok(());
    }
    let at = got
        .lines()
        .zip(want.lines())
        .find(|(a, b)| a != b)
        .map_or("results", |(a, _)| a.rsplit_once(' ').map_or("results", |x| x.0));
    Err(Fail::new(
        format!("{what}-{at}"),
        format!("{} key {:?}: {at} differs {what} from a new process", hex(&i.0), i.1.map(|k| hex(&k))),
    ))
}

/// A few telegrams decoded so often that anything counted or gathered between calls shows.
fn many(rng: &mut Rng, obs: &mut Obs) -> Verdict {
    let pool: Vec<Input> = family(rng, 40).into_iter().filter(|i| i.0.len() < 60).take(6).collect();
    let result = |i: &Input| match output::decode_bytes(&i.0, &opts(i.1)) {
        Ok(d) => format!("{d:?}"),
        Err(e) => format!("{}/{e}", e.code()),
    };
    let other = |i: &Input, n: usize| {
        let h = hex(&i.0);
        let r = match n % 5 {
            0 => return format!("{:?}", output::decode_hex(&h, &opts(i.1)).map_err(|e| e.to_string())),
            1 => return format!("{:?}", annotate::annotate_frame(&i.0)),
            2 => return serialize_mbus_data(&h, "json-legacy", i.1.as_ref()),
            n => output::render_hex(&h, [Fmt::Xml, Fmt::Csv][n - 3], &ropts(i.1, None, true)),
        };
        r.unwrap_or_else(|e| format!("{}/{e}", e.code()))
    };
    if pool.is_empty() {
        return Ok(());
    }
    let want: Vec<String> = guard("decode", || pool.iter().map(result).collect())?;
    let first: Vec<String> = guard("decode", || (0..5 * pool.len()).map(|n| other(&pool[n / 5], n)).collect())?;
    for round in 0..12_000u32 {
        let n = round as usize % first.len();
        let got = guard("decode", || other(&pool[n / 5], n))?;
        if got != first[n] {
            return Err(Fail::new("after many renderings", format!("{}: rendering {round} differs from the first", hex(&pool[n / 5].0))));
        }
        for (i, w) in pool.iter().zip(&want) {
            let got = guard("decode", || result(i))?;
            if got != *w {
                return Err(Fail::new("after many decodes", format!("{}: decode {round} differs from the first", hex(&i.0))));
            }
        }
    }
    obs.evals(12_000 * pool.len() as u64);
    obs.count("telegrams decoded 12,000 times");
    Ok(())
}

impl Monitor for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "distinct (telegram, key) inputs whose results were compared between a new process, repeated and reordered decodes and concurrent threads"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a result is identified by a 64-bit hash of its text"]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(160, 1600)
    }
    fn min_distinct(&self) -> u64 {
        500
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut c = Case::new(if idx % 20 == 7 { "many" } else { "family" });
        c.nums = vec![rng.u64() as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let mut rng = Rng::new(case.nums[0] as u64);
        if case.kind == "many" {
            return many(&mut rng, obs);
        }
        let pool = family(&mut rng, 24);
        let want: Vec<String> =
            pool.iter().enumerate().map(|(n, i)| fresh(i, n % 3)).collect::<Result<_, _>>()?;
        if want.iter().any(|w| w.is_empty()) {
            // the library died in the child: C01 decides that
            obs.count("families with a failed child");
            return Ok(());
        }
        for (i, w) in pool.iter().zip(&want) {
            if w.contains("iterations differ") {
                return Err(Fail::new("iteration", format!("{}: iterating twice gives different records", hex(&i.0))));
            }
            obs.feature_hash(fnv(format!("{:?}", i).as_bytes()));
        }
        // repeated, in several orders
        for round in 0..4 {
            let mut order: Vec<usize> = (0..pool.len()).collect();
            match round {
                0 => {}
                1 => order.reverse(),
                _ => {
                    for k in (1..order.len()).rev() {
                        order.swap(k, rng.usize(k + 1));
                    }
                }
            }
            for &k in &order {
                let i = &pool[k];
                let before = i.0.clone();
                let f = guard("decode", || fingerprint(&i.0, i.1))?;
                obs.eval();
                check("after other decodes", i, &f, &want[k])?;
                if before != i.0 {
                    return Err(Fail::new("input-modified", format!("{}: input was modified", hex(&before))));
                }
            }
        }
        // concurrently, each thread in its own order
        let seeds: Vec<u64> = (0..8).map(|_| rng.u64()).collect();
        let results: Vec<Verdict> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&seed| {
                    let (pool, want) = (&pool, &want);
                    s.spawn(move || -> Verdict {
                        let mut r = Rng::new(seed);
                        for _ in 0..pool.len() {
                            let k = r.usize(pool.len());
                            let f = fingerprint(&pool[k].0, pool[k].1);
                            check("in concurrent threads", &pool[k], &f, &want[k])?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err(Fail::new("thread-panic", "a decoding thread panicked"))))
                .collect()
        });
        obs.evals(8 * pool.len() as u64);
        obs.count("concurrent rounds of 8 threads");
        for r in results {
            r?;
        }
        obs.sample(|| format!("{} telegrams, first {}", pool.len(), hex(&pool[0].0)));
        Ok(())
    }
}
