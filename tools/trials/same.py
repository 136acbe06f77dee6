"""Rewritings that keep the behaviour: with all of them applied every check has to stay quiet.

usage: same.py DIRECTORY    applies them to the copy of the repository there
"""
import sys

O, AN, X, MB = "src/output.rs", "src/annotate.rs", "src/rscada_xml.rs", "src/mbus_data.rs"
WL, WD = "crates/wireless-mbus-link-layer/src/lib.rs", "crates/wired-mbus-link-layer/src/lib.rs"
CO, DE, DR = "crates/m-bus-core/src/lib.rs", "crates/m-bus-core/src/decryption.rs", "crates/m-bus-application-layer/src/data_record.rs"
HI, CL, PY = "wasm/src/highlight.rs", "cli/src/main.rs", "python/src/lib.rs"
CRC_OLD = """    let mut crc: u16 = 0x0000;
    for &byte in data {
        crc ^= (byte as u16) << 8;
        for _ in 0..8 {
            if crc & 0x8000 != 0 {
                crc = (crc << 1) ^ 0x3D65;
            } else {
                crc <<= 1;
            }
        }
    }
    crc ^ 0xFFFF
"""
CRC_NEW = """    !data.iter().fold(0u16, |crc, byte| {
        (0..8).rev().fold(crc, |crc, bit| {
            let feedback = (crc >> 15) ^ u16::from((byte >> bit) & 1);
            (crc << 1) ^ (feedback * 0x3D65)
        })
    })
"""
EDITS = [
    (O, "    data.iter().map(|byte| format!(\"{byte:02X}\")).collect()\n", "    const DIGITS: &[u8; 16] = b\"0123456789ABCDEF\";\n    let mut text = String::with_capacity(data.len() * 2);\n    for byte in data {\n        text.push(char::from(DIGITS[usize::from(byte >> 4)]));\n        text.push(char::from(DIGITS[usize::from(byte & 0x0F)]));\n    }\n    text\n"),
    (MB, "    data.iter().map(|b| format!(\"{:02X}\", b)).collect()\n", "    use std::fmt::Write;\n    data.iter().fold(String::new(), |mut text, byte| {\n        let _ = write!(text, \"{byte:02X}\");\n        text\n    })\n"),
    (O, """    let mut digits = vec![0u8];
    for byte in magnitude.iter().rev() {
        let mut carry = u16::from(*byte);
        for digit in &mut digits {
            let value = u16::from(*digit) * 256 + carry;
            *digit = (value % 10) as u8;
            carry = value / 10;
        }
        while carry != 0 {
            digits.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    while digits.len() > 1 && digits.last() == Some(&0) {
        digits.pop();
    }
    let mut value: String = digits
        .iter()
        .rev()
        .map(|digit| char::from(b'0' + *digit))
        .collect();
""", """    // base 10^9, least significant group first
    let mut groups: Vec<u64> = vec![0];
    for byte in magnitude.iter().rev() {
        let mut carry = u64::from(*byte);
        for group in groups.iter_mut() {
            let total = *group * 256 + carry;
            *group = total % 1_000_000_000;
            carry = total / 1_000_000_000;
        }
        if carry > 0 {
            groups.push(carry);
        }
    }
    let mut value = groups.pop().unwrap_or(0).to_string();
    for group in groups.iter().rev() {
        value.push_str(&format!("{group:09}"));
    }
"""),
    (O, """    value
        .replace('&', "&amp;")
        .replace('"', "&quot;")
        .replace('<', "&lt;")
        .replace('>', "&gt;")
        // "%%" starts a comment or directive anywhere in a mermaid source
        .replace("%%", "%&#37;")
        .replace(|character: char| character.is_control(), " ")
""", """    let mut text = String::with_capacity(value.len());
    let mut characters = value.chars().peekable();
    while let Some(character) = characters.next() {
        match character {
            '&' => text += "&amp;",
            '"' => text += "&quot;",
            '<' => text += "&lt;",
            '>' => text += "&gt;",
            '%' if characters.next_if_eq(&'%').is_some() => text += "%&#37;",
            _ if character.is_control() => text.push(' '),
            _ => text.push(character),
        }
    }
    text
"""),
    (O, "            let mut decrypted_buffer = [0u8; 512];\n            let security = prepare_security(\n                parsed.user_data.as_ref(),\n                None,", "            let mut decrypted_buffer = vec![0u8; 1024];\n            let security = prepare_security(\n                parsed.user_data.as_ref(),\n                None,"),
    (O, "    let mut crc_buffer = [0u8; 512];\n", "    let mut crc_buffer = vec![0u8; data.len().max(512)];\n"),
    (O, """    let mut output = Vec::new();
    let mut records = records.clone();
    while let Some(item) = records.next() {
        match item {
            Ok(record) => output.push(record_output(output.len(), &record, lsb_order)),
            Err(error) => return (output, Some((records.offset(), error.to_string()))),
        }
    }
    (output, None)
""", """    let mut records = records.clone();
    let mut output: Vec<RecordOutput> = Vec::with_capacity(16);
    loop {
        let next = records.next();
        let Some(item) = next else {
            break (output, None);
        };
        let record = match item {
            Err(error) => break (output, Some((records.offset(), error.to_string()))),
            Ok(record) => record,
        };
        let index = output.len();
        output.push(record_output(index, &record, lsb_order));
    }
"""),
    (O, """    while output.contains('.') && output.ends_with('0') {
        output.pop();
    }
    if output.ends_with('.') {
        output.pop();
    }
""", """    if output.contains('.') {
        output = output.trim_end_matches('0').trim_end_matches('.').to_owned();
    }
"""),
    (WL, CRC_OLD, CRC_NEW),
    (AN, CRC_OLD, CRC_NEW),
    (WL, """        for data_len in (1..=max_data_len).rev() {
            let crc_start = pos + data_len;
            if crc_start + 2 > data.len() {
                continue;
            }
            if crc16_en13757(&data[pos..crc_start])
                == u16::from_be_bytes([data[crc_start], data[crc_start + 1]])
            {
                output[out_pos..out_pos + data_len].copy_from_slice(&data[pos..crc_start]);
                out_pos += data_len;
                pos = crc_start + 2;
                found = true;
                break;
            }
        }
""", """        let fits = |data_len: &usize| {
            let (block, rest) = data[pos..].split_at(*data_len);
            rest.len() >= 2 && crc16_en13757(block).to_be_bytes() == rest[..2]
        };
        let fitting = (1..=max_data_len).rev().find(fits);
        if let Some(data_len) = fitting {
            output[out_pos..][..data_len].copy_from_slice(&data[pos..][..data_len]);
            out_pos += data_len;
            pos += data_len + 2;
            found = true;
        }
"""),
    (WD, """                match control_field {
                    0x53 => Ok(WiredFrame::ControlFrame {
                        function: Function::try_from(control_field)?,
                        address: Address::from(address_field),
                        data: data.get(6..data.len() - 2).ok_or(FrameError::LengthShort)?,
                    }),
                    _ => Ok(WiredFrame::LongFrame {
                        function: Function::try_from(control_field)?,
                        address: Address::from(address_field),
                        data: data.get(6..data.len() - 2).ok_or(FrameError::LengthShort)?,
                    }),
                }
""", """                let function = Function::try_from(control_field)?;
                let address = Address::from(address_field);
                let data = data.get(6..data.len() - 2).ok_or(FrameError::LengthShort)?;
                Ok(if control_field == 0x53 {
                    WiredFrame::ControlFrame { function, address, data }
                } else {
                    WiredFrame::LongFrame { function, address, data }
                })
"""),
    (CO, """    let mut number = 0u32;

    for &digit in digits.iter().rev() {
        let lower = digit & 0x0F;
        let upper = digit >> 4;
        if lower > 9 || upper > 9 {
            return Err(ApplicationLayerError::IdentificationNumberError { digits, number });
        }
        number = number * 100 + (u32::from(upper) * 10) + u32::from(lower);
    }

    Ok(number)
""", """    digits.iter().rev().try_fold(0u32, |number, digit| {
        match (digit >> 4, digit & 0x0F) {
            (upper @ 0..=9, lower @ 0..=9) => Ok(number * 100 + u32::from(upper * 10 + lower)),
            _ => Err(ApplicationLayerError::IdentificationNumberError { digits, number }),
        }
    })
"""),
    (DE, """    let mut bcd = [0u8; 4];
    for byte in &mut bcd {
        let low = (value % 10) as u8;
        value /= 10;
        let high = (value % 10) as u8;
        value /= 10;
        *byte = (high << 4) | low;
    }
    bcd
""", """    core::array::from_fn(|_| {
        let pair = (value % 100) as u8;
        value /= 100;
        (pair / 10) << 4 | (pair % 10)
    })
"""),
    (DE, """    if encrypted_len == 0 {
        // No full blocks to decrypt, just copy data as-is
        let dest = output
            .get_mut(..len)
            .ok_or(DecryptionError::InvalidDataLength)?;
        dest.copy_from_slice(data);
        return Ok(len);
    }

""", ""),
    (DR, """        let mut record_size = data_record_header.get_size() + data_out.get_size();
        if record_size > data.len() {
            record_size = data.len();
        }
""", """        let record_size = data.len().min(header_size + data_out.get_size());
"""),
    (X, """    let mut result = u64::from((dif & 0x40) >> 6);
    let mut bit_index = 1;
    for &dife in difes {
        result |= u64::from(dife & 0x0F) << bit_index;
        bit_index += 4;
    }
    result
""", """    let high = difes.iter().rev().fold(0, |high, dife| high << 4 | u64::from(dife & 0x0F));
    high << 1 | u64::from(dif >> 6 & 1)
"""),
    (X, """    let mut result = 0;
    let mut bit_index = 0;
    for &dife in difes {
        result |= u64::from((dife & 0x30) >> 4) << bit_index;
        bit_index += 2;
    }
    result
""", """    difes.iter().rev().fold(0, |result, dife| result << 2 | u64::from(dife >> 4 & 3))
"""),
    (X, """    let mut value: i64 = 0;
    for &byte in bytes.iter().rev() {
        value *= 10;
        if byte >> 4 < 0xA {
            value += i64::from(byte >> 4);
        }
        value = value * 10 + i64::from(byte & 0x0F);
    }
""", """    let mut value = bytes.iter().rev().fold(0i64, |value, &byte| {
        let upper = if byte >> 4 > 9 { 0 } else { byte >> 4 };
        value * 100 + i64::from(upper) * 10 + i64::from(byte & 0x0F)
    });
"""),
    (X, """        // U+FFFE and U+FFFF are not XML characters
        if c.is_ascii_control() || matches!(c, '\\u{FFFE}' | '\\u{FFFF}') {
            out.push(' ');
        } else {
            match c {
                '&' => out.push_str("&amp;"),
                '<' => out.push_str("&lt;"),
                '>' => out.push_str("&gt;"),
                '"' => out.push_str("&quot;"),
                _ => out.push(c),
            }
        }
""", """        let entity = match c {
            '&' => "&amp;",
            '<' => "&lt;",
            '>' => "&gt;",
            '"' => "&quot;",
            // not XML characters
            '\\u{FFFE}' | '\\u{FFFF}' => " ",
            _ if c.is_ascii_control() => " ",
            _ => {
                out.push(c);
                continue;
            }
        };
        out += entity;
"""),
    (AN, """        let kind_str = format!("{}", seg.kind);
        // Text values may contain line breaks that would look like new rows
        let detail = seg.detail.replace(|c: char| c.is_control(), "·");

        let _ = writeln!(
            out,
            "│  {:<10} {:<24} {:<22} {}",
            offset_str, hex_str, kind_str, detail
        );
""", """        // Text values may contain line breaks that would look like new rows
        let detail: String = seg.detail.chars().map(|c| if c.is_control() { '·' } else { c }).collect();
        let kind_str = seg.kind.to_string();
        out += &format!("│  {offset_str:<10} {hex_str:<24} {kind_str:<22} {detail}\\n");
"""),
    (HI, """                push_csv_field(&mut html, &field, column);
                field.clear();
                html.push_str("<span class=\\"syn-punctuation syn-csv-delimiter\\">,</span>");
                column += 1;
""", """                push_csv_field(&mut html, &std::mem::take(&mut field), column);
                html += "<span class=\\"syn-punctuation syn-csv-delimiter\\">,</span>";
                column += 1;
"""),
    (CL, """            let width = width.or_else(|| {
                if io::stdout().is_terminal() {
                    terminal_size().map(|(Width(columns), _)| usize::from(columns))
                } else {
                    Some(100)
                }
            });
""", """            let width = match width {
                Some(columns) => Some(columns),
                None if !io::stdout().is_terminal() => Some(100),
                None => terminal_size().map(|(columns, _)| usize::from(columns.0)),
            };
"""),
    (CL, "use terminal_size::{terminal_size, Width};", "use terminal_size::terminal_size;"),
]
if __name__ == "__main__":
    for f, old, new in EDITS:
        p = f"{sys.argv[1]}/{f}"
        s = open(p).read()
        if old == new:
            continue
        if s.count(old) != 1:
            print("found", s.count(old), "times in", f, ":", old[:70])
        open(p, "w").write(s.replace(old, new, 1))
