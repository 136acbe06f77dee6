//! Telegram generators: well-formed, boundary and hostile inputs.

use crate::engine::Rng;

pub fn crc16(data: &[u8]) -> u16 {
    // CRC-16/EN-13757, computed bit by bit over the message polynomial.
    let mut reg: u32 = 0;
    for &b in data {
        for i in (0..8).rev() {
            let bit = u32::from((b >> i) & 1);
            let top = (reg >> 15) & 1;
            reg = (reg << 1) & 0xFFFF;
            if top ^ bit == 1 {
                reg ^= 0x3D65;
            }
        }
    }
    (!reg & 0xFFFF) as u16
}

/// The two bytes which, after `before`, give the checksum `want`.
pub fn crc_steer(before: &[u8], want: u16) -> [u8; 2] {
    let x = (0..=u16::MAX).find(|x| crc16(&x.to_be_bytes()) == want).unwrap_or(0);
    (x ^ !crc16(before)).to_be_bytes()
}

pub fn sum(data: &[u8]) -> u8 {
    data.iter().fold(0u8, |a, b| a.wrapping_add(*b))
}

/// Wired long frame around user data (CI ... records).
pub fn wired(c: u8, a: u8, user: &[u8]) -> Vec<u8> {
    let l = (user.len() + 2) as u8;
    let mut f = vec![0x68, l, l, 0x68, c, a];
    f.extend_from_slice(user);
    let s = sum(&f[4..]);
    f.push(s);
    f.push(0x16);
    f
}

pub fn short_frame(c: u8, a: u8) -> Vec<u8> {
    vec![0x10, c, a, c.wrapping_add(a), 0x16]
}

pub fn mfr_id(code: &[u8; 3]) -> u16 {
    (u16::from(code[0] - 64) << 10) | (u16::from(code[1] - 64) << 5) | u16::from(code[2] - 64)
}

/// Header of a wireless frame: L C M M ID*4 VER TYPE.
pub fn wireless_header(c: u8, mfr: u16, id: [u8; 4], ver: u8, dev: u8) -> Vec<u8> {
    let mut f = vec![0, c];
    f.extend_from_slice(&mfr.to_le_bytes());
    f.extend_from_slice(&id);
    f.push(ver);
    f.push(dev);
    f
}

/// Plain frame without any CRC.
pub fn wireless_plain(head: &[u8], app: &[u8]) -> Vec<u8> {
    let mut f = head.to_vec();
    f.extend_from_slice(app);
    f[0] = (f.len() - 1) as u8;
    f
}

/// Frame with one CRC over everything at the end (L includes it).
pub fn wireless_trailing(head: &[u8], app: &[u8]) -> Vec<u8> {
    let mut f = head.to_vec();
    f.extend_from_slice(app);
    f[0] = (f.len() + 1) as u8;
    let c = crc16(&f);
    f.extend_from_slice(&c.to_be_bytes());
    f
}

/// Format A: 10 byte block + CRC, then blocks of 16 + CRC. L counts without CRCs.
pub fn wireless_format_a(head: &[u8], app: &[u8]) -> Vec<u8> {
    let mut h = head.to_vec();
    h[0] = (h.len() + app.len() - 1) as u8;
    let mut f = h.clone();
    f.extend_from_slice(&crc16(&h).to_be_bytes());
    for b in app.chunks(16) {
        f.extend_from_slice(b);
        f.extend_from_slice(&crc16(b).to_be_bytes());
    }
    f
}

pub fn bcd_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    if rng.chance(1, 32) {
        // the least and the greatest numbers, and their neighbours
        let mut v = vec![*rng.pick(&[0x00u8, 0x99, 0x99]); n];
        if let (Some(x), true) = (v.first_mut(), rng.chance(1, 2)) {
            *x = *rng.pick(&[0x00u8, 0x01, 0x98, 0x99]);
        }
        return v;
    }
    (0..n)
        .map(|_| {
            let a = rng.below(10) as u8;
            let b = rng.below(10) as u8;
            (a << 4) | b
        })
        .collect()
}

pub fn gen_mfr(rng: &mut Rng) -> u16 {
    if rng.chance(1, 2) {
        let known: &[&[u8; 3]] = &[
            b"KAM", b"SLB", b"ELS", b"ABB", b"LUG", b"SEN", b"DME", b"TCH", b"EMH", b"ITW", b"QDS",
            b"ZRI", b"AMT", b"ACW", b"GWF", b"EFE", b"HYD", b"SON", b"WEP", b"BMT",
        ];
        mfr_id(*rng.pick(known))
    } else {
        let mut c = [0u8; 3];
        for x in &mut c {
            *x = b'A' + rng.below(26) as u8;
        }
        mfr_id(&c)
    }
}

/// Data length in bytes for a DIF data field, None for variable length / special.
pub fn dif_len(dif: u8) -> Option<usize> {
    Some(match dif & 0x0F {
        0x0 | 0x8 => 0,
        0x1 | 0x9 => 1,
        0x2 | 0xA => 2,
        0x3 | 0xB => 3,
        0x4 | 0x5 | 0xC => 4,
        0x6 | 0xE => 6,
        0x7 => 8,
        _ => return None,
    })
}

pub fn edge_int(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(10) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => {
            let mut v = vec![0; n];
            if let Some(l) = v.last_mut() {
                *l = 0x80;
            }
            v
        }
        3 => {
            let mut v = vec![0xFF; n];
            if let Some(l) = v.last_mut() {
                *l = 0x7F;
            }
            v
        }
        4 => {
            let mut v = vec![0; n];
            if let Some(l) = v.first_mut() {
                *l = rng.u8();
            }
            v
        }
        _ => rng.bytes(n),
    }
}

pub fn edge_real(rng: &mut Rng) -> Vec<u8> {
    let v: u32 = match rng.below(15) {
        12 => *rng.pick(&[0xFF7F_FFFF, 0x0080_0000, 0x8080_0000, 0x007F_FFFF, 0x807F_FFFF, 0x8000_0001, 0x7F7F_FFFE, 0x7F80_0001, 0x4B80_0000, 0x5F00_0000, 0xDF00_0000]),
        13 => (10f32.powi(rng.range(-45, 39) as i32) * if rng.chance(1, 2) { -1.0 } else { 1.0 }).to_bits().wrapping_add(rng.below(3) as u32).wrapping_sub(1),
        0 => 0x7F80_0000,
        1 => 0xFF80_0000,
        2 => 0x7FC0_0000,
        3 => 0xFFFF_FFFF,
        4 => 0x8000_0000,
        5 => 0,
        6 => 1,
        7 => 0x7F7F_FFFF,
        8 => (rng.range(-100_000, 100_000) as f32).to_bits(),
        9 => (rng.range(-100_000, 100_000) as f32 / 8.0).to_bits(),
        _ => rng.u64() as u32,
    };
    v.to_le_bytes().to_vec()
}

pub fn text_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(6) {
        0 => rng.bytes(n),
        1 => (0..n).map(|_| 0x80 + (rng.u8() & 0x7F)).collect(),
        2 => (0..n)
            .map(|_| *rng.pick(b"\"<>&[]{}|;:,#'`\\/()\r\n\t\0%\x1b=-~A"))
            .collect(),
        3 => {
            // reversed UTF-8 text, cut to n bytes
            let s = ["m³", "°C", "Zähler", "日本", "a\u{0301}", "\u{FFFE}", "\u{2028}x", "😀", "\u{200b}", "é"];
            let mut t: Vec<u8> = vec![];
            while t.len() < n {
                t.extend_from_slice(rng.pick(&s).as_bytes());
            }
            t.truncate(n);
            t.reverse();
            t
        }
        _ => (0..n).map(|_| 0x20 + rng.below(0x5F) as u8).collect(),
    }
}

/// Length byte and data of a variable length field.
pub fn gen_lvar(rng: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    match rng.below(20) {
        0..=8 => {
            let n = if rng.chance(1, 12) {
                rng.below(0xC0) as usize
            } else {
                rng.below(14) as usize
            };
            out.push(n as u8);
            out.extend(text_bytes(rng, n));
        }
        9..=11 => {
            let n = rng.below(10) as u8;
            out.push(0xC0 + n);
            out.extend(bcd_bytes(rng, n as usize));
        }
        12..=13 => {
            let n = rng.below(10) as u8;
            out.push(0xD0 + n);
            out.extend(bcd_bytes(rng, n as usize));
        }
        14..=16 => {
            let n = rng.below(16) as u8;
            out.push(0xE0 + n);
            out.extend(edge_int(rng, n as usize));
        }
        17 => {
            let n = *rng.pick(&[0u8, 1, 2, 4, 5, 6]);
            out.push(0xF0 + n);
            let len = match n {
                0..=4 => 4 * n as usize,
                5 => 48,
                _ => 64,
            };
            out.extend(edge_int(rng, len));
        }
        _ => {
            out.push(rng.u8());
            let n = rng.usize(12);
            out.extend(rng.bytes(n));
        }
    }
    out
}

pub fn gen_dif(rng: &mut Rng) -> Vec<u8> {
    let field = if rng.chance(1, 8) {
        *rng.pick(&[0x0u8, 0x8, 0xD])
    } else {
        *rng.pick(&[1u8, 2, 3, 4, 4, 5, 6, 7, 9, 10, 11, 12, 12, 14, 13])
    };
    let mut d = vec![field | ((rng.below(4) as u8) << 4) | ((rng.below(2) as u8) << 6)];
    let n = match rng.below(10) {
        0..=5 => 0,
        6..=7 => 1,
        8 => 1 + rng.usize(3),
        _ => 1 + rng.usize(10),
    };
    for _ in 0..n {
        *d.last_mut().unwrap() |= 0x80;
        let b = if rng.chance(1, 3) { rng.u8() & 0x7F } else { rng.u8() & 0x13 };
        d.push(b);
    }
    d
}

pub const VIFE_COMMON: &[u8] = &[
    0x00, 0x01, 0x02, 0x07, 0x08, 0x0B, 0x11, 0x12, 0x13, 0x17, 0x1F, 0x20, 0x22, 0x23, 0x28, 0x29, 0x2A, 0x2C, 0x2D,
    0x32, 0x33, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x40, 0x44, 0x48, 0x4C, 0x50, 0x58, 0x5A, 0x60, 0x68, 0x6A, 0x6E, 0x70, 0x71,
    0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7A, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F,
];

fn push_vifes(rng: &mut Rng, v: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        *v.last_mut().unwrap() |= 0x80;
        let b = if rng.chance(1, 3) {
            rng.u8() & 0x7F
        } else {
            *rng.pick(VIFE_COMMON)
        };
        v.push(b);
    }
}

/// Value information block; `plain_std` selects where the plaintext length/string goes.
pub fn gen_vib(rng: &mut Rng, plain_before: bool) -> Vec<u8> {
    let extra = match rng.below(10) {
        0..=5 => 0,
        6..=7 => 1,
        8 => 1 + rng.usize(3),
        _ => rng.usize(9),
    };
    match rng.below(16) {
        0..=7 => {
            let mut v = vec![rng.below(0x7B) as u8];
            if v[0] == 0x6F && rng.chance(3, 4) {
                v[0] = 0x6D;
            }
            if rng.chance(1, 40) {
                // corrections on top of each other
                let one = *rng.pick(&[0x78u8, 0x79, 0x7A, 0x70, 0x71, 0x77, 0x7D, 0x31]);
                for _ in 0..2 + rng.usize(8) {
                    *v.last_mut().unwrap() |= 0x80;
                    v.push(if rng.chance(5, 6) { one } else { 0x70 | rng.below(12) as u8 });
                }
                return v;
            }
            push_vifes(rng, &mut v, extra);
            v
        }
        8 => {
            // time points
            let mut v = vec![*rng.pick(&[0x6Cu8, 0x6D, 0x6D])];
            push_vifes(rng, &mut v, extra.min(2));
            v
        }
        9..=10 => {
            let mut v = vec![0xFD, rng.u8() & 0x7F];
            push_vifes(rng, &mut v, extra);
            v
        }
        11..=12 => {
            let mut v = vec![0xFB, rng.u8() & 0x7F];
            push_vifes(rng, &mut v, extra);
            v
        }
        13 => {
            let ext = extra.min(6);
            let mut v = vec![0x7C];
            let n = rng.usize(10);
            let text: Vec<u8> = (0..n).map(|_| 0x20 + rng.below(0x5F) as u8).collect();
            let mut pt = vec![n as u8];
            pt.extend_from_slice(&text);
            if plain_before {
                if ext > 0 {
                    v[0] |= 0x80;
                }
                v.extend_from_slice(&pt);
                for i in 0..ext {
                    let b = *rng.pick(VIFE_COMMON) | if i + 1 < ext { 0x80 } else { 0 };
                    v.push(b);
                }
            } else {
                push_vifes(rng, &mut v, ext);
                v.extend_from_slice(&pt);
            }
            v
        }
        14 => {
            let mut v = vec![*rng.pick(&[0x7Eu8, 0x7F])];
            push_vifes(rng, &mut v, extra);
            v
        }
        _ => {
            // FC prefixed combinable extension
            let mut v = vec![rng.below(0x70) as u8 | 0x80, 0xFC, rng.below(0x20) as u8];
            push_vifes(rng, &mut v, extra.min(4));
            v
        }
    }
}

pub fn gen_data(rng: &mut Rng, dif: u8, vib: &[u8]) -> Vec<u8> {
    let base = vib.first().copied().unwrap_or(0) & 0x7F;
    match dif & 0x0F {
        0x0D => gen_lvar(rng),
        0x05 => edge_real(rng),
        0x9..=0xC | 0xE => {
            let n = dif_len(dif).unwrap();
            let mut b = bcd_bytes(rng, n);
            match rng.below(12) {
                0 => {
                    // negative BCD
                    if let Some(l) = b.last_mut() {
                        *l = 0xF0 | (*l & 0x0F);
                    }
                }
                1 => b = vec![0; n],
                2 => b = vec![0x99; n],
                3 => b = rng.bytes(n),
                _ => {}
            }
            b
        }
        _ => {
            let n = dif_len(dif).unwrap_or(0);
            if base == 0x6C || base == 0x6D {
                if rng.chance(2, 3) {
                    return gen_datetime(rng, n);
                }
                return rng.bytes(n);
            }
            edge_int(rng, n)
        }
    }
}

/// Plausible type G/F/I bytes.
pub fn gen_datetime(rng: &mut Rng, n: usize) -> Vec<u8> {
    let day = *rng.pick(&[0u8, 1, 15, 28, 29, 30, 31]);
    let month = *rng.pick(&[0u8, 1, 2, 6, 11, 12, 13, 15]);
    let year = *rng.pick(&[0u8, 1, 7, 8, 12, 24, 26, 80, 99, 100, 126, 127]);
    let g0 = day | ((year & 7) << 5);
    let g1 = month | ((year >> 3) << 4);
    let min = *rng.pick(&[0u8, 1, 30, 59, 60, 63]) | if rng.chance(1, 12) { 0x80 } else { 0 } | if rng.chance(1, 8) { 0x40 } else { 0 };
    let hour = *rng.pick(&[0u8, 1, 12, 23, 24, 31]) | (rng.below(8) as u8) << 5;
    match n {
        2 => vec![g0, g1],
        3 => vec![*rng.pick(&[0u8, 1, 59, 60, 63]), min & 0x7F, hour],
        4 => vec![min, hour, g0, g1],
        6 => vec![*rng.pick(&[0u8, 1, 59, 60, 63, 0x80]), min, hour, g0, g1, rng.u8()],
        _ => rng.bytes(n),
    }
}

/// One data record (well formed most of the time).
pub fn gen_record(rng: &mut Rng, plain_before: bool) -> Vec<u8> {
    let mut dib = gen_dif(rng);
    let vib = gen_vib(rng, plain_before);
    let base = vib[0] & 0x7F;
    if rng.chance(9, 10) {
        // usual field widths of the time point codes
        if base == 0x6C {
            dib[0] = (dib[0] & 0xF0) | 2;
        } else if base == 0x6D {
            dib[0] = (dib[0] & 0xF0) | *rng.pick(&[4u8, 4, 6, 3]);
        }
    }
    let data = gen_data(rng, dib[0], &vib);
    let mut r = dib;
    r.extend_from_slice(&vib);
    r.extend_from_slice(&data);
    r
}

/// Records up to exactly `n` bytes, the last one possibly cut.
pub fn full_area(rng: &mut Rng, n: usize, plain_before: bool) -> Vec<u8> {
    let mut area = vec![];
    if rng.chance(1, 4) {
        // as many records as fit, or nearly
        let last = gen_record(rng, plain_before);
        while area.len() + last.len() + 16 < n {
            match rng.below(60) {
                0 => area.extend([0x01, 0x13, rng.u8()]),
                1 => area.push(*rng.pick(&[0x2F, 0x7F])),
                _ => area.extend([*rng.pick(&[0x00u8, 0x08, 0x10, 0x40]), *rng.pick(&[0x13u8, 0x05, 0x5A, 0x78])]),
            }
        }
        area.extend(last);
        return area;
    }
    while area.len() < n {
        let r = gen_record(rng, plain_before);
        if r[0] & 0x0F != 0x0F || rng.chance(1, 8) {
            area.extend(r);
        }
    }
    area.truncate(n);
    area
}

/// A record area: records, fillers and optionally a manufacturer tail; at most `max` bytes.
pub fn gen_records(rng: &mut Rng, max: usize, plain_before: bool) -> Vec<u8> {
    let mut out = vec![];
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => 1 + rng.usize(5),
        _ => 1 + rng.usize(14),
    };
    for _ in 0..n {
        match rng.below(24) {
            0 => out.push(0x2F),
            1 => out.push(*rng.pick(&[0x3Fu8, 0x4F, 0x5F, 0x6F, 0x7F, 0x7F, 0x8F, 0xAF])),
            _ => {
                let r = gen_record(rng, plain_before);
                if out.len() + r.len() <= max {
                    out.extend(r);
                }
            }
        }
    }
    if rng.chance(1, 8) && out.len() + 10 < max {
        out.push(*rng.pick(&[0x0Fu8, 0x1F]));
        let k = rng.usize(8);
        out.extend(rng.bytes(k));
    }
    out.truncate(max);
    out
}

/// Long TPL header after the CI (12 bytes).
pub fn long_header(rng: &mut Rng, cfg: u16) -> Vec<u8> {
    let mut h = bcd_bytes(rng, 4);
    h.extend_from_slice(&gen_mfr(rng).to_le_bytes());
    h.push(rng.u8());
    h.push(if rng.chance(3, 4) { rng.below(0x40) as u8 } else { rng.u8() });
    h.push(rng.u8());
    h.push(if rng.chance(1, 2) { 0 } else { rng.u8() });
    h.extend_from_slice(&cfg.to_le_bytes());
    h
}

pub fn short_header(rng: &mut Rng, cfg: u16) -> Vec<u8> {
    let mut h = vec![rng.u8(), if rng.chance(1, 2) { 0 } else { rng.u8() }];
    h.extend_from_slice(&cfg.to_le_bytes());
    h
}

/// Configuration field whose security mode is "none".
pub fn cfg_clear(rng: &mut Rng) -> u16 {
    if rng.chance(3, 4) {
        0
    } else {
        (rng.u64() as u16) & 0xE0FF
    }
}

pub fn cfg_mode(rng: &mut Rng, mode: u8) -> u16 {
    ((rng.u64() as u16) & 0xE0FF) | (u16::from(mode) << 8)
}

/// An application layer (CI and following) of any supported kind, cleartext.
pub fn gen_app(rng: &mut Rng, max: usize, plain_before: bool) -> Vec<u8> {
    let mut a = vec![];
    match rng.below(20) {
        0..=7 => {
            a.push(if rng.chance(1, 8) { 0x76 } else { 0x72 });
            let c = cfg_clear(rng);
            a.extend(long_header(rng, c));
            if rng.chance(1, 8) {
                // mostly no manufacturer at all
                a[5..7].copy_from_slice(&rng.arr::<2>());
            }
        }
        8..=10 => {
            a.push(if rng.chance(1, 4) { 0xA1 + rng.below(15) as u8 } else { 0x7A });
            let c = cfg_clear(rng);
            a.extend(short_header(rng, c));
        }
        11 => {
            a.push(0xA0);
            a.push(rng.u8());
            let c = cfg_clear(rng);
            a.extend(short_header(rng, c));
        }
        12..=13 => a.push(0x78),
        14..=15 => {
            a.extend_from_slice(&[0x8C, rng.u8(), rng.u8()]);
            if rng.chance(1, 2) {
                a.push(0x78);
            } else {
                a.push(if rng.chance(1, 4) { 0xA1 + rng.below(15) as u8 } else { 0x7A });
                let c = cfg_clear(rng);
                a.extend(short_header(rng, c));
            }
        }
        16 => {
            a.push(0x8D);
            a.extend(rng.bytes(8));
        }
        17 => {
            a.push(0x8E);
            a.extend(rng.bytes(16));
        }
        18 => {
            a.push(*rng.pick(&[0x73u8, 0x77]));
            a.extend(bcd_bytes(rng, 4));
            a.extend([rng.u8(), rng.u8(), rng.u8(), rng.u8()]);
            a.extend(bcd_bytes(rng, 8));
            return a;
        }
        _ => {
            a.push(0x50);
            let k = rng.usize(3);
            a.extend(rng.bytes(k));
            return a;
        }
    }
    let m = max.saturating_sub(a.len());
    a.extend(gen_records(rng, m, plain_before));
    a
}

pub fn gen_wireless_head(rng: &mut Rng) -> Vec<u8> {
    let c = if rng.chance(3, 4) { 0x44 } else { rng.u8() };
    let m = gen_mfr(rng);
    let id: [u8; 4] = bcd_bytes(rng, 4).try_into().unwrap();
    let dev = if rng.chance(3, 4) { rng.below(0x40) as u8 } else { rng.u8() };
    let ver = rng.u8();
    wireless_header(c, m, id, ver, dev)
}

/// Sometimes gives the link layer all or part of the identity in a long transport header.
pub fn relate(rng: &mut Rng, head: &mut [u8], app: &[u8]) {
    if app.len() < 9 || !matches!(app[0], 0x72 | 0x76) || !rng.chance(1, 3) {
        return;
    }
    let keep = if rng.chance(1, 3) { 15 } else { rng.below(16) };
    for (i, (to, from)) in [(4..8, 1..5), (2..4, 5..7), (8..9, 7..8), (9..10, 8..9)].into_iter().enumerate() {
        if keep >> i & 1 == 1 {
            head[to].copy_from_slice(&app[from]);
        }
    }
    if app[0] == 0x76 && keep & 1 == 1 {
        head[4..8].reverse();
    }
}

pub const FUNCTIONS: &[u8] = &[
    0x40, 0x44, 0x53, 0x73, 0x5B, 0x7B, 0x5A, 0x7A, 0x08, 0x18, 0x28, 0x38,
];

/// A complete frame, wired or wireless, in any framing.
pub fn gen_frame(rng: &mut Rng, plain_before: bool) -> Vec<u8> {
    match rng.below(20) {
        0 => vec![0xE5],
        1 => {
            let c = *rng.pick(FUNCTIONS);
            short_frame(c, rng.u8())
        }
        2 => ambiguous(rng, plain_before),
        3..=10 => {
            let app = gen_app(rng, 250, plain_before);
            let c = if rng.chance(5, 6) { 0x08 } else { *rng.pick(FUNCTIONS) };
            let a = if rng.chance(1, 3) { *rng.pick(&[0u8, 253, 254, 255]) } else { rng.u8() };
            wired(c, a, &app)
        }
        11..=14 => {
            let mut h = gen_wireless_head(rng);
            let a = gen_app(rng, 240, plain_before);
            relate(rng, &mut h, &a);
            wireless_plain(&h, &a)
        }
        15..=16 => {
            let mut h = gen_wireless_head(rng);
            let a = gen_app(rng, 240, plain_before);
            relate(rng, &mut h, &a);
            wireless_trailing(&h, &a)
        }
        _ => {
            let mut h = gen_wireless_head(rng);
            let a = gen_app(rng, 240, plain_before);
            relate(rng, &mut h, &a);
            wireless_format_a(&h, &a)
        }
    }
}

/// Wired frame whose bytes would also make a wireless frame of the same length.
pub fn ambiguous(rng: &mut Rng, plain_before: bool) -> Vec<u8> {
    let two = |rng: &mut Rng| (rng.below(10) << 4 | rng.below(10)) as u8;
    let mut app = vec![*rng.pick(&[0x72u8, 0x72, 0x78, 0x73, 0x31, 0x50, 0x76]), two(rng), rng.u8(), rng.u8()];
    if app[0] == 0x72 || app[0] == 0x76 {
        app[2] = two(rng);
        app[3] = two(rng);
        app.push(*rng.pick(&[0x72u8, 0x78, 0x77, 0x50]));
        app.extend(gen_mfr(rng).to_le_bytes());
        let mode = *rng.pick(&[0u8, 0, 5, 7]);
        app.extend([rng.u8(), rng.u8(), rng.u8(), rng.u8(), rng.u8(), mode]);
    } else {
        app.push(*rng.pick(&[0x7Au8, 0x7A, 0x72, 0x78, 0x8C]));
        let mode = *rng.pick(&[0u8, 5, 7]);
        app.extend([rng.u8(), rng.u8(), rng.u8(), mode]);
    }
    let n = 97 - app.len();
    let mut r = gen_records(rng, n, plain_before);
    r.resize(n, 0x2F);
    app.extend(r);
    wired(0x08, two(rng), &app)
}

/// Byte-level corruption that keeps the telegram recognisable.
pub fn mutate(rng: &mut Rng, b: &mut Vec<u8>) {
    let times = 1 + rng.usize(4);
    for _ in 0..times {
        if b.is_empty() {
            b.push(rng.u8());
            continue;
        }
        let i = rng.usize(b.len());
        match rng.below(12) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b[i] = rng.u8(),
            2 => b[i] = 0xFF,
            3 => b[i] |= 0x80,
            4 => {
                b.remove(i);
            }
            5 => b.insert(i, rng.u8()),
            6 => b.truncate(i),
            7 => {
                let j = i + rng.usize(b.len() - i) + 1;
                let part = b[i..j.min(b.len())].to_vec();
                for (k, x) in part.into_iter().enumerate() {
                    b.insert(i + k, x);
                }
            }
            8 => b[i] = *rng.pick(&[0x0D, 0x6C, 0x6D, 0x7C, 0xFC, 0xFD, 0xFB, 0x7D, 0xFF, 0x0F, 0x1F, 0x2F, 0x7F, 0x8C, 0x68, 0xE0]),
            9 => b[i] = b[i].wrapping_add(1),
            10 => {
                let k = rng.usize(20);
                b.extend(rng.bytes(k));
            }
            _ => {
                let j = rng.usize(b.len());
                b.swap(i, j);
            }
        }
        if b.len() > 700 {
            b.truncate(700);
        }
    }
}

/// Recomputes lengths and checks so that a mutated body reaches the inner layers.
pub fn refit(b: &mut Vec<u8>) {
    if b.first() == Some(&0x68) && b.len() >= 9 && b.len() <= 261 {
        let l = (b.len() - 6) as u8;
        b[1] = l;
        b[2] = l;
        b[3] = 0x68;
        let n = b.len();
        b[n - 2] = sum(&b[4..n - 2]);
        b[n - 1] = 0x16;
    } else if b.len() >= 11 && b.len() <= 256 {
        b[0] = (b.len() - 1) as u8;
    }
}

/// A telegram whose records are encrypted with `key`.
pub struct Secured {
    pub frame: Vec<u8>,
    pub key: [u8; 16],
    pub mode: u8,
    pub plain: Vec<u8>,
}

/// Encrypted telegrams: long header wired or wireless, short header wireless, modes 5 and 7 correctly
/// encrypted, all other modes with opaque bytes.
pub fn gen_secured(rng: &mut Rng, plain_before: bool) -> Secured {
    use crate::model::{aes, bcd_id, iv5};
    let key: [u8; 16] = rng.arr();
    let mode = match rng.below(10) {
        0..=5 => 5,
        6..=7 => 7,
        _ => 1 + rng.below(31) as u8,
    };
    let mut plain = vec![];
    if rng.chance(7, 8) {
        plain.extend_from_slice(&[0x2F, 0x2F]);
    }
    plain.extend(gen_records(rng, 200, plain_before));
    let long = rng.chance(1, 2);
    if rng.chance(1, 12) {
        // as long as a frame can be, or nearly
        let n = 1 + if long { 215 + rng.usize(25) } else { 205 + rng.usize(19) };
        plain.extend(full_area(rng, n, plain_before));
        plain.truncate(if rng.chance(1, 2) { n / 16 * 16 } else { n });
    } else if rng.chance(3, 4) {
        while plain.len() % 16 != 0 {
            plain.push(0x2F);
        }
    }
    let cfg = cfg_mode(rng, mode);
    let mut head = gen_wireless_head(rng);
    let mut app = vec![];
    let iv;
    if long {
        let msb = rng.chance(1, 8);
        app.push(if msb { 0x76 } else { 0x72 });
        let h = long_header(rng, cfg);
        let mut idb = [h[0], h[1], h[2], h[3]];
        if msb {
            idb.reverse();
        }
        iv = iv5(u16::from_le_bytes([h[4], h[5]]), bcd_id(&idb).unwrap(), h[6], h[7], h[8]);
        app.extend(h);
    } else {
        if rng.chance(1, 6) {
            app.extend_from_slice(&[0x8C, rng.u8(), rng.u8()]);
        }
        let first = app.len();
        app.push(match rng.below(6) {
            0 => 0xA0 + rng.below(16) as u8,
            _ => 0x7A,
        });
        if app[first] == 0xA0 {
            app.push(rng.u8());
        }
        let h = short_header(rng, cfg);
        let dev = if app[0] & 0xF0 == 0xA0 { head[9] >> 4 } else { head[9] };
        iv = iv5(u16::from_le_bytes([head[2], head[3]]), bcd_id(&head[4..8]).unwrap(), head[8], dev, h[0]);
        app.extend(h);
    }
    let body = match mode {
        5 => aes::cbc_encrypt(&key, iv, &plain),
        7 => aes::cbc_encrypt(&key, [0; 16], &plain),
        _ => {
            let n = plain.len();
            rng.bytes(n)
        }
    };
    app.extend(body);
    if long {
        relate(rng, &mut head, &app);
    }
    let frame = match rng.below(6) {
        _ if app.len() > 244 => wired(0x08, rng.u8(), &app),
        0..=1 if long => wired(0x08, rng.u8(), &app),
        0 if rng.chance(1, 4) => wired(0x08, rng.u8(), &app),
        2 => wireless_trailing(&head, &app),
        3..=4 => wireless_format_a(&head, &app),
        _ => wireless_plain(&head, &app),
    };
    Secured {
        frame,
        key,
        mode,
        plain,
    }
}
