//! C03 wired frames, C04 wireless framing, C05 transport headers.

use super::common::*;
use crate::engine::*;
use crate::gen;
use crate::model::{self, Link};
use m_bus_parser::{WiredFrame, WirelessFrame};
use serde_json::Value;

pub struct C03;

fn wired_view(f: &WiredFrame<'_>) -> String {
    match f {
        WiredFrame::SingleCharacter { character } => format!("single {character:02X}"),
        WiredFrame::ShortFrame { function, address } => format!("short {function:?} {address}"),
        WiredFrame::ControlFrame { function, address, data } => format!("control {function:?} {address} {}", hex(data)),
        WiredFrame::LongFrame { function, address, data } => format!("long {function:?} {address} {}", hex(data)),
        other => format!("other {other:?}"),
    }
}

fn function_debug(c: u8) -> String {
    match c {
        0x40 => "SndNk { prm: false }".into(),
        0x44 => "SndNr".into(),
        0x53 | 0x73 => format!("SndUd {{ fcb: {} }}", c & 0x20 != 0),
        0x5B | 0x7B => format!("ReqUd2 {{ fcb: {} }}", c & 0x20 != 0),
        0x5A | 0x7A => format!("ReqUd1 {{ fcb: {} }}", c & 0x20 != 0),
        _ => format!("RspUd {{ acd: {}, dfc: {} }}", c & 0x20 != 0, c & 0x10 != 0),
    }
}

fn wired_want(l: &Link, b: &[u8]) -> String {
    match l {
        Link::Single => "single E5".into(),
        Link::Short { control, address } => format!("short {} {}", function_debug(*control), model::address_name(*address)),
        Link::Control { control, address, at, len } => format!(
            "control {} {} {}",
            function_debug(*control),
            model::address_name(*address),
            hex(&b[*at..at + len])
        ),
        Link::Long { control, address, at, len } => format!(
            "long {} {} {}",
            function_debug(*control),
            model::address_name(*address),
            hex(&b[*at..at + len])
        ),
        Link::Wireless { .. } => unreachable!(),
    }
}

impl Monitor for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "distinct (workload class, accepted kind or rejection with the violated framing rule, control byte, address class, length) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        65_536 + tier.pick(1_000_000, 8_000_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        if idx < 65_536 {
            return Case::bytes("short-all", gen::short_frame((idx >> 8) as u8, idx as u8));
        }
        let k = idx - 65_536;
        if rng.chance(1, 60) {
            // hardly anything: the telling bytes alone
            let n = 1 + rng.usize(7);
            let one = *rng.pick(&[0xE5u8, 0x68, 0x10, 0x16, 0x00, 0xFF]);
            let b = (0..n).map(|_| if rng.chance(1, 2) { one } else { *rng.pick(&[0xE5, 0x68, 0x10, 0x16, one, one]) });
            return Case::bytes("tiny", b.collect());
        }
        let len = match rng.below(4) {
            // longer than the length byte can tell
            0 if rng.chance(1, 20) => 254 + { let most = *rng.pick(&[12, 520]); rng.usize(most) },
            0 => rng.usize(6),
            1 => rng.usize(254),
            2 => *rng.pick(&[250usize, 251, 252, 253]),
            _ => rng.usize(40),
        };
        let c = if rng.chance(1, 4) { rng.u8() } else { *rng.pick(gen::FUNCTIONS) };
        let a = if rng.chance(1, 3) { *rng.pick(&[0u8, 1, 250, 251, 252, 253, 254, 255]) } else { rng.u8() };
        let user = rng.bytes(len);
        let base = gen::wired(c, a, &user);
        let mut b = base.clone();
        let kind = match k % 14 {
            0 | 1 => "valid",
            2..=5 => {
                // one corrupted byte anywhere
                let i = match rng.below(3) {
                    0 => rng.usize(6.min(b.len())),
                    1 => b.len() - 1 - rng.usize(2),
                    _ => rng.usize(b.len()),
                };
                let old = b[i];
                b[i] = match rng.below(3) {
                    0 => old ^ (1 << rng.below(8)),
                    1 => *rng.pick(&[0x68, 0x10, 0xE5, 0x16, 0x00, 0xFF]),
                    _ => rng.u8(),
                };
                if b[i] == old {
                    b[i] = old.wrapping_add(1);
                }
                "corrupt-one"
            }
            6 => {
                let n = rng.usize(b.len());
                b.truncate(n);
                "truncated"
            }
            7 => {
                let n = 1 + rng.usize(12);
                let x = if rng.chance(1, 2) { rng.bytes(n) } else { vec![0x16; n] };
                b.extend(x);
                "extended"
            }
            8 => {
                // consistent checksum, inconsistent lengths
                let d = *rng.pick(&[1u8, 2, 255, 254, 16, 128]);
                match rng.below(3) {
                    0 => b[1] = b[1].wrapping_add(d),
                    1 => b[2] = b[2].wrapping_add(d),
                    _ => {
                        b[1] = b[1].wrapping_add(d);
                        b[2] = b[1];
                    }
                }
                "length-field"
            }
            9 => {
                // two swapped or compensating bytes keep the checksum
                if b.len() > 10 {
                    let i = 4 + rng.usize(b.len() - 6);
                    let j = 4 + rng.usize(b.len() - 6);
                    b[i] = b[i].wrapping_add(1);
                    b[j] = b[j].wrapping_sub(1);
                }
                "compensated"
            }
            10 => {
                // short frame deviations
                b = gen::short_frame(c, a);
                match rng.below(5) {
                    0 => {
                        let i = rng.usize(5);
                        b[i] ^= 1 << rng.below(8);
                    }
                    1 => b.truncate(rng.usize(5)),
                    2 => b.push(rng.u8()),
                    3 => {
                        // a longer body with a matching sum
                        b = vec![0x10, c, a, rng.u8()];
                        let s = gen::sum(&b[1..]);
                        b.extend_from_slice(&[s, 0x16]);
                    }
                    _ => {}
                }
                "short-deviant"
            }
            11 => {
                b = match rng.below(4) {
                    0 => vec![0xE5],
                    1 => vec![0xE5, rng.u8()],
                    2 => vec![rng.u8()],
                    _ => {
                        let n = rng.usize(9);
                        rng.bytes(n)
                    }
                };
                "tiny"
            }
            12 => {
                // L = 0, 1, 2 with otherwise consistent bytes
                let l = rng.below(4) as u8;
                let body = rng.bytes(l as usize);
                b = vec![0x68, l, l, 0x68];
                b.extend_from_slice(&body);
                b.push(gen::sum(&body));
                b.push(0x16);
                "short-length"
            }
            _ => {
                let n = rng.usize(270);
                b = rng.bytes(n);
                if let Some(x) = b.first_mut() {
                    *x = *rng.pick(&[0x68u8, 0x10, 0xE5]);
                }
                "random"
            }
        };
        let mut case = Case::bytes(kind, b);
        case.aux = base;
        case
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes;
        let want = model::wired(b);
        let before = b.clone();
        let got = guard("WiredFrame", || WiredFrame::try_from(b.as_slice()).map(|f| wired_view(&f)))?;
        obs.eval();
        if *b != before {
            return Err(Fail::new("input-modified", "input changed"));
        }
        let w = want.as_ref().map(|l| wired_want(l, b));
        match (&w, &got) {
            (Some(w), Ok(g)) if w == g => {}
            (None, Err(e)) => {
                obs.count(&format!("rejected:{}", case.kind));
                obs.feature(&format!("{} {e:?} {}", case.kind, b.len()));
            }
            (Some(w), Ok(g)) => {
                return Err(Fail::new("fields", format!("{}: expected {w}, got {g}", hex(b))));
            }
            (Some(w), Err(e)) => {
                return Err(Fail::new("rejected-valid", format!("{}: expected {w}, got error {e:?}", hex(b))));
            }
            (None, Ok(g)) => {
                return Err(Fail::new("accepted-invalid", format!("{}: malformed but accepted as {g}", hex(b))));
            }
        }
        if let Some(w) = &w {
            obs.count(&format!("accepted:{}", case.kind));
            let class: String = w.split(' ').take(6).collect::<Vec<_>>().join(" ");
            obs.feature(&format!("{} {class} {}", case.kind, b.len()));
            obs.sample(|| format!("{} {} -> {w}", case.kind, hex(b)));
            if case.kind == "corrupt-one" {
                let base = &case.aux;
                let payload = |x: &[u8]| x.get(6..x.len().saturating_sub(2)).map(<[u8]>::to_vec);
                if payload(b) != payload(base) {
                    return Err(Fail::new("corruption-accepted", format!("{} from {}", hex(b), hex(base))));
                }
            }
        }
        // the same decision and fields through the canonical decode
        let doc = real_doc(b, None)?;
        obs.eval();
        match (&want, &doc) {
            (Some(_), Ok(d)) => {
                let m = model_doc(b, None).map_err(|e| Fail::new("harness:model", e))?;
                let d = model::normalise(d.clone());
                if d["protocol"] != "wired" {
                    return Err(Fail::new("protocol", format!("{}: well formed wired frame decoded as {}", hex(b), d["protocol"])));
                }
                same("/frame", &m.doc["frame"], &d["frame"], case)?;
                same("/raw", &m.doc["raw"], &d["raw"], case)?;
            }
            (Some(_), Err(e)) => return Err(Fail::new("decode-rejected", format!("{}: {e}", hex(b)))),
            (None, Ok(d)) if d["protocol"] == "wired" => {
                return Err(Fail::new("decode-accepted", format!("{}: malformed wired frame decoded", hex(b))));
            }
            _ => {}
        }
        Ok(())
    }
}

pub struct C04;

impl Monitor for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "distinct (framing class, payload length, accepted or rejected, bytes removed, CI) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(150_000, 900_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut head = gen::gen_wireless_head(rng);
        let n = if idx < 245 * 8 { 1 + (idx / 8) as usize % 245 } else { 1 + rng.usize(243) };
        let app = if rng.chance(1, 2) {
            let mut a = gen::gen_app(rng, 243, PLAIN);
            if a.len() > n {
                a.truncate(n);
            }
            while a.len() < n {
                a.push(0x2F);
            }
            a
        } else {
            let mut a = rng.bytes(n);
            a[0] = *rng.pick(&[0x72u8, 0x7A, 0x78, 0x8C, 0x8D, 0xA2, 0x5B]);
            a
        };
        let mut app = app;
        if rng.chance(1, 30) {
            // checksums of particular values
            let want = *rng.pick(&[0x0000u16, 0x0000, 0xFFFF, 0x0001, 0x00FF, 0xFF00, 0x8000]);
            match rng.below(3) {
                0 => {
                    head[0] = (head.len() + app.len() - 1) as u8;
                    let end = gen::crc_steer(&head[..8], want);
                    head[8..10].copy_from_slice(&end);
                }
                1 if app.len() > 2 => {
                    head[0] = (head.len() + app.len() + 1) as u8;
                    let (m, all) = (app.len() - 2, [&head[..], &app].concat());
                    app[m..].copy_from_slice(&gen::crc_steer(&all[..all.len() - 2], want));
                }
                _ => {
                    let from = rng.usize(app.len().div_ceil(16)) * 16;
                    let to = (from + 16).min(app.len());
                    if to - from > 2 {
                        let end = gen::crc_steer(&app[from..to - 2], want);
                        app[to - 2..to].copy_from_slice(&end);
                    }
                }
            }
        }
        let mut c = match idx % 10 {
            0..=2 => {
                let mut c = Case::bytes("equivalence", head);
                c.aux = app;
                return c;
            }
            3 => Case::bytes("plain", gen::wireless_plain(&head, &app)),
            4 => Case::bytes("trailing", gen::wireless_trailing(&head, &app)),
            5 => {
                let mut b = gen::wireless_trailing(&head, &app);
                let i = b.len() - 1 - rng.usize(2);
                b[i] ^= 1 << rng.below(8);
                Case::bytes("trailing-corrupt", b)
            }
            6 => {
                // one corrupted CRC byte of one block
                let mut b = gen::wireless_format_a(&head, &app);
                let blocks = 1 + app.len().div_ceil(16);
                let k = rng.usize(blocks);
                let end = if k == 0 { 12 } else { (12 + 18 * k).min(b.len()) };
                let i = end - 1 - rng.usize(2);
                b[i] ^= 1 << rng.below(8);
                Case::bytes("format-a-corrupt", b)
            }
            7 => {
                let mut b = gen::wireless_format_a(&head, &app);
                let i = rng.usize(b.len());
                match rng.below(3) {
                    0 => b[i] ^= 1 << rng.below(8),
                    1 => b.truncate(i),
                    _ => b.extend_from_slice(&rng.bytes(3)),
                }
                Case::bytes("format-a-damaged", b)
            }
            8 => {
                let mut b = gen::wireless_plain(&head, &app);
                match rng.below(5) {
                    4 => {
                        // longer than the length byte can tell
                        let most = *rng.pick(&[12, 300]);
                        let n = 257 + rng.usize(most);
                        b.resize(n, 0x2F);
                        b[0] = *rng.pick(&[0xFF, (n - 1) as u8, n as u8, 0]);
                        if rng.chance(1, 3) {
                            let c = gen::crc16(&b[..n - 2]).to_be_bytes();
                            b[n - 2..].copy_from_slice(&c);
                        }
                    }
                    0 => b[0] = b[0].wrapping_add(1 + rng.below(3) as u8),
                    1 => b[0] = b[0].wrapping_sub(1 + rng.below(3) as u8),
                    2 => b.truncate(rng.usize(14.min(b.len()))),
                    _ => {
                        let n = rng.usize(14);
                        b.truncate(n);
                        if let Some(x) = b.first_mut() {
                            *x = (n as u8).wrapping_sub(1);
                        }
                    }
                }
                Case::bytes("length", b)
            }
            _ => {
                let mut b = gen::wireless_plain(&head, &app);
                // identity fields with invalid digits or letters
                let i = 2 + rng.usize(8);
                b[i] = rng.u8();
                Case::bytes("identity", b)
            }
        };
        c.nums = vec![rng.below(600) as i64];
        c
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        if case.kind == "equivalence" {
            let (head, app) = (&case.bytes, &case.aux);
            let mut docs: Vec<(&str, Value, Value)> = vec![];
            for (name, f) in [
                ("plain", gen::wireless_plain(head, app)),
                ("trailing", gen::wireless_trailing(head, app)),
                ("format-a", gen::wireless_format_a(head, app)),
            ] {
                if f.len() > 256 && name != "format-a" {
                    continue;
                }
                let c = Case::bytes(name, f.clone());
                let Some(p) = both(&c, obs)? else { continue };
                check_doc(&p, &c)?;
                if p.got["raw"]["original_frame_hex"] != hex(&f) {
                    return Err(Fail::new("original-bytes", hex(&f)));
                }
                let cut = |mut v: Value| {
                    let payload = v["raw"]["payload_hex"].take();
                    v["raw"] = payload;
                    v
                };
                docs.push((name, cut(p.want.doc), cut(p.got)));
                obs.feature(&format!("{name} {} {}", app.len(), app[0]));
            }
            for w in docs.windows(2) {
                obs.eval();
                // by chance a payload can itself look like a checksummed block; the model knows
                if w[0].1 == w[1].1 {
                    obs.count("equal framings");
                    if let Some((p, m)) = model::diff(&w[0].2, &w[1].2) {
                        return Err(Fail::new(
                            format!("framing-dependent{}", model::path_class(&p)),
                            format!("head {} app {}: {} vs {}: {p}: {m}", hex(head), hex(app), w[0].0, w[1].0),
                        ));
                    }
                }
            }
            return Ok(());
        }
        let b = &case.bytes;
        // low level pieces
        let cap = case.nums.first().copied().unwrap_or(0) as usize;
        for cap in [b.len(), cap] {
            let mut out = vec![0xC3u8; cap];
            let got = guard("strip_format_a_crcs", || {
                wireless_mbus_link_layer::strip_format_a_crcs(b, &mut out).map(<[u8]>::to_vec)
            })?;
            obs.eval();
            let want = strip_any(b);
            if cap >= b.len() {
                if got != want {
                    return Err(Fail::new(
                        "strip",
                        format!("{}: expected {:?}, got {:?}", hex(b), want.map(|x| hex(&x)), got.map(|x| hex(&x))),
                    ));
                }
            } else if let Some(g) = &got {
                if Some(g) != want.as_ref() {
                    return Err(Fail::new("strip-short-buffer", format!("{}: {}", hex(b), hex(g))));
                }
            }
        }
        let crc = guard("trailing_frame_crc_start", || wireless_mbus_link_layer::trailing_frame_crc_start(b))?;
        let n = b.len();
        let want_crc = (n >= 12 && gen::crc16(&b[..n - 2]) == u16::from_be_bytes([b[n - 2], b[n - 1]])).then(|| n - 2);
        if crc != want_crc {
            return Err(Fail::new("trailing-crc", format!("{}: expected {want_crc:?}, got {crc:?}", hex(b))));
        }
        let wf = guard("WirelessFrame", || {
            WirelessFrame::try_from(b.as_slice()).map(|f| {
                format!(
                    "{:02X} {} {} {} {} {}",
                    f.control_field,
                    f.manufacturer_id.manufacturer_code,
                    f.manufacturer_id.identification_number,
                    f.manufacturer_id.version,
                    u8::from(f.manufacturer_id.device_type),
                    hex(f.data)
                )
            })
        })?;
        let want = model::wireless(b).map(|l| match l {
            Link::Wireless { control, id, at, len } => format!(
                "{control:02X} {} {:08} {} {} {}",
                model::mfr_letters(id.mfr).unwrap(),
                id.id,
                id.version,
                id.device,
                hex(&b[at..at + len])
            ),
            _ => unreachable!(),
        });
        obs.evals(2);
        match (&want, &wf) {
            (Some(w), Ok(g)) if w == g => {}
            (None, Err(_)) => {}
            _ => return Err(Fail::new("wireless-frame", format!("{}: expected {want:?}, got {wf:?}", hex(b)))),
        }
        match both(case, obs)? {
            Some(p) => {
                check_doc(&p, case)?;
                obs.count(&format!("accepted:{}", case.kind));
                let removed = b.len() - p.want.framed.normalized.len();
                obs.feature(&format!("{} {} {removed} {:?}", case.kind, b.len(), p.want.framed.normalized.get(10)));
                obs.sample(|| format!("{} {} -> {} CRC bytes removed", case.kind, hex(b), removed));
            }
            None => {
                obs.count(&format!("rejected:{}", case.kind));
                obs.feature(&format!("{} {} rejected", case.kind, b.len()));
            }
        }
        Ok(())
    }
}

fn strip_any(b: &[u8]) -> Option<Vec<u8>> {
    model::strip_format_a(b)
}

fn check_doc(p: &Pair, case: &Case) -> Verdict {
    for k in ["protocol", "frame", "meter", "transport", "records", "raw"] {
        same(&format!("/{k}"), &p.want.doc[k], &p.got[k], case)?;
    }
    Ok(())
}

pub struct C05;

impl Monitor for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "distinct (CI, framing, payload length up to the header length, header kind, partial or complete, security mode) tuples"
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(256 * 2500, 256 * 20000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let ci = if (idx / 256) % 4 == 0 {
            idx as u8
        } else {
            *rng.pick(&[
                0x72u8, 0x72, 0x76, 0x7A, 0x7A, 0x78, 0x73, 0x77, 0x8C, 0x8C, 0x8D, 0x8E, 0x50, 0xA0, 0xA1, 0xA5, 0xAF, 0x5A, 0x6A,
                0x6B, 0x80, 0x8A, 0x8F, 0x90, 0xB0, 0x51, 0x54, 0x74, 0x70, 0x79, 0x7B, 0x9F,
            ])
        };
        let mut app = vec![ci];
        let n = match rng.below(4) {
            0 => rng.usize(20),
            1 => rng.usize(32),
            _ => 18 + rng.usize(20),
        };
        let mut h = if rng.chance(5, 6) { gen::bcd_bytes(rng, n) } else { rng.bytes(n) };
        // plausible header behind the CI, in places random
        match ci {
            0x72 | 0x76 => {
                let mode = if rng.chance(1, 2) { 0 } else { rng.below(32) as u8 };
                let cfg = gen::cfg_mode(rng, mode);
                let mut l = gen::long_header(rng, cfg);
                if rng.chance(1, 8) {
                    let i = rng.usize(12);
                    l[i] = rng.u8();
                }
                h.splice(0..12.min(h.len()), l.into_iter().take(12.min(n)));
            }
            0x7A | 0xA0..=0xAF => {
                let mode = if rng.chance(1, 2) { 0 } else { rng.below(32) as u8 };
                let cfg = gen::cfg_mode(rng, mode);
                let mut l = gen::short_header(rng, cfg);
                if ci == 0xA0 {
                    l.insert(0, rng.u8());
                }
                let k = l.len().min(n);
                h.splice(0..k, l.into_iter().take(k));
            }
            0x8C => {
                h = rng.bytes(n);
                if n > 2 {
                    h[2] = *rng.pick(&[0x78u8, 0x7A, 0xA0, 0xA3, 0x72, 0x73, 0x8C, 0x8D, 0x50, 0x00]);
                }
                if n > 6 && rng.chance(2, 3) {
                    h[6] &= 0xE0;
                }
            }
            0x8D | 0x8E => h = rng.bytes(n),
            0x73 | 0x77 => {
                if n > 7 {
                    for x in &mut h[4..8] {
                        *x = rng.u8();
                    }
                }
            }
            _ => {}
        }
        app.extend(h);
        let frame = match rng.below(5) {
            0..=1 => gen::wired(*rng.pick(&[0x08u8, 0x08, 0x28, 0x44, 0x73, 0x53]), rng.u8(), &app),
            2 => {
                let mut head = gen::gen_wireless_head(rng);
                gen::relate(rng, &mut head, &app);
                gen::wireless_plain(&head, &app)
            }
            3 => {
                let mut head = gen::gen_wireless_head(rng);
                gen::relate(rng, &mut head, &app);
                gen::wireless_trailing(&head, &app)
            }
            _ => {
                let mut head = gen::gen_wireless_head(rng);
                gen::relate(rng, &mut head, &app);
                gen::wireless_format_a(&head, &app)
            }
        };
        Case::bytes("header", frame)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let Some(p) = both(case, obs)? else {
            obs.count("rejected");
            return Ok(());
        };
        for k in ["protocol", "frame", "meter", "transport", "raw"] {
            same(&format!("/{k}"), &p.want.doc[k], &p.got[k], case)?;
        }
        for k in ["mode", "mode_code", "payload_protection"] {
            same(&format!("/security/{k}"), &p.want.doc["security"][k], &p.got["security"][k], case)?;
        }
        // unsupported control information is said to be so and yields nothing
        let codes = |d: &Value| -> Vec<String> {
            d["diagnostics"]
                .as_array()
                .map(|a| a.iter().map(|x| x["code"].to_string()).filter(|c| c.contains("application.partial")).collect())
                .unwrap_or_default()
        };
        if codes(&p.want.doc) != codes(&p.got) {
            return Err(Fail::new(
                "unsupported-not-reported",
                format!("{}: expected {:?}, got {:?}", hex(&case.bytes), codes(&p.want.doc), codes(&p.got)),
            ));
        }
        if !codes(&p.got).is_empty() && p.got["records"].as_array().is_some_and(|r| !r.is_empty()) {
            return Err(Fail::new("records-behind-unsupported", hex(&case.bytes)));
        }
        let pl = p.want.framed.payload();
        let ci = pl.and_then(|(a, n)| p.want.framed.normalized[a..a + n].first().copied());
        obs.feature(&format!(
            "{ci:?} {} {} {} {} {}",
            p.got["protocol"],
            pl.map_or(0, |x| x.1).min(18),
            p.got["transport"]["header_kind"],
            p.got["decode_state"],
            p.got["security"]["mode_code"]
        ));
        obs.count(&format!("kind:{}", p.got["transport"]["header_kind"].as_str().unwrap_or("absent")));
        obs.sample(|| format!("{} -> {} {}", hex(&case.bytes), p.got["meter"], p.got["transport"]));
        Ok(())
    }
}
