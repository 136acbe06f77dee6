OUT, VI, DI, LIB = "src/output.rs", "crates/m-bus-application-layer/src/value_information.rs", "crates/m-bus-application-layer/src/data_information.rs", "crates/m-bus-application-layer/src/lib.rs"
MB, WL, WD, DE = "src/mbus_data.rs", "crates/wireless-mbus-link-layer/src/lib.rs", "crates/wired-mbus-link-layer/src/lib.rs", "crates/m-bus-core/src/decryption.rs"
TRIALS = [
    # wired and wireless frames
    ("C04", WL, "    if crc_start < 10 {", "    if crc_start < 12 {"),
    ("C04", WL, "                    (device_byte >> 4) & 0x0F", "                    device_byte & 0x0F"),
    ("C04", WL, "if (0xA0..=0xAF).contains(&ci_byte)", "if (0xA0..=0xAE).contains(&ci_byte)"),
    ("C04", WL, "        if length_byte + 1 == length {", "        if length_byte < length {"),
    ("C04", WL, "    output[0] = (out_pos - 1) as u8;", "    if out_pos < data.len() - 2 {\n        output[0] = (out_pos - 1) as u8;\n    }"),
    ("C04", WL, "        let max_data_len = 16.min(remaining - 2);", "        let max_data_len = 15.min(remaining - 2);"),
    ("C04", WL, "        for data_len in (1..=max_data_len).rev() {", "        for data_len in [max_data_len] {"),
    # headers
    ("C05", OUT, "                if link != application_identity {", "                if link.id != application_identity.id {"),
    ("C05", OUT, "                if link != application_identity {", "                if link.manufacturer_code != application_identity.manufacturer_code {"),
    ("C05", OUT, "        raw: format!(\"{:02X}\", header.status.bits()),", "        raw: format!(\"{:02X}\", header.status.bits() & 0x1F),"),
    ("C05", LIB, "                let has_encryption_config_byte = data[0] == 0xA0;", "                let has_encryption_config_byte = matches!(data[0], 0xA0 | 0xA1);"),
    ("C05", LIB, "                if lsb_order {\n                    identification_number_bytes.reverse();\n                }\n", ""),
    ("C05", OUT, "            transport.header_kind = Some(if synthetic { \"ell\" } else { \"short_tpl\" }.to_string());", "            transport.header_kind = Some(if extended_link_layer.is_some() { \"ell\" } else { \"short_tpl\" }.to_string());"),
    # record boundaries
    ("C06", LIB, "                    data_information::SpecialFunctions::Reserved => {\n                        self.offset += 1;", "                    data_information::SpecialFunctions::Reserved => {\n                        self.offset = self.data.len();"),
    ("C06", LIB, "                        let remaining = self.data.get(self.offset..)?;\n                        self.offset += 1;\n", "                        let remaining = self.data.get(self.offset..)?;\n                        self.offset = self.data.len();\n"),
    ("C06", DI, "            0x7F => SpecialFunctions::GlobalReadoutRequest,", "            0x7F | 0xFF => SpecialFunctions::GlobalReadoutRequest,"),
    ("C06", DI, "const MAXIMUM_DATA_INFORMATION_SIZE: usize = 11;", "const MAXIMUM_DATA_INFORMATION_SIZE: usize = 10;"),
    ("C06", DI, "                            .get(1..(1 + 48_usize))", "                            .get(1..(2 + 48_usize))"),
    ("C06", DI, "                    0xF0..=0xF4 => {\n                        length -= 0xEC;", "                    0xF0..=0xF4 => {\n                        length -= 0xED;"),
    # data information
    ("C07", DI, "storage_number += u64::from(dife & 0x0f) << ((device_index * 4) + 1);", "storage_number += u64::from(u32::from(dife & 0x0f) << ((device_index * 4) + 1).min(31));"),
    ("C07", DI, "                tariff_index += 2;", "                tariff_index = (tariff_index + 2) % 16;"),
    ("C07", DI, "device |= u64::from((dife & 0x40) >> 6) << device_index;", "device |= u64::from((dife & 0x40) >> 6) << (device_index & 7);"),
    ("C07", DI, "        let mut storage_number = u64::from((dif & 0b0100_0000) >> 6);", "        let mut storage_number = u64::from((dif & 0b0100_0000) >> 6 & !(dif >> 7));"),
    # numbers
    ("C08", OUT, "            if carry == 0 {\n                break;\n            }\n        }\n        value", "            if carry == 0 || *byte != 0 {\n                break;\n            }\n        }\n        value"),
    ("C08", OUT, "        0xC0..=0xC9 | 0xD0..=0xD9 => {", "        0xC0..=0xC9 | 0xD0..=0xD8 => {"),
    ("C08", OUT, "            0x78..=0x7B => offset = Some(isize::from(extension.data & 0b11) - 3),", "            0x78..=0x7B => offset = offset.or(Some(isize::from(extension.data & 0b11) - 3)),"),
    ("C08", OUT, "    } else if value == f64::NEG_INFINITY {\n        (None, Some(\"negative_infinity\".to_string()))", "    } else if value == f64::NEG_INFINITY {\n        (Some(f64::MIN), None)"),
    ("C08", OUT, "        if digits.len() > places {", "        if digits.len() >= places {"),
    ("C08", OUT, "            borrow = 1;\n        } else {\n            borrow = 0;\n        }", "            borrow = 1;\n        }"),
    ("C08", OUT, "    if negative && value != \"0\" {\n        value.insert(0, '-');", "    if negative && value.len() < 20 {\n        value.insert(0, '-');"),
    ("C08", DI, "        if digit > 9 {", "        if digit > 9 && i + 1 < num_digits {"),
    ("C08", OUT, "        0xF6 => signed_le_decimal(data.get(1..=64)?),", "        0xF6 => signed_le_decimal(data.get(1..=63)?),"),
    ("C08", OUT, "            let length = usize::from(marker - 0xEC) * 4;", "            let length = usize::from(marker & 0x0F) * 4;"),
    ("C08", DI, "    let data_value = if byte_size < 8 && negative {", "    let data_value = if byte_size < 6 && negative {"),
    ("C08", DI, "Ok(Data {\n                        value: Some(DataType::Number(f64::from(f32::from_le_bytes(x)))),", "Ok(Data {\n                        value: Some(DataType::Number(f64::from(f32::from_le_bytes(x)).abs().copysign(f64::from(x[3])))),"),
    # dates
    ("C10", DI, "            0xF => SingleEveryOrInvalid::Every(),\n            _ => SingleEveryOrInvalid::Invalid(),", "            0x0 | 0xF => SingleEveryOrInvalid::Every(),\n            _ => SingleEveryOrInvalid::Invalid(),"),
    ("C10", DI, "            value if value <= $maximum => SingleEveryOrInvalid::Single(value),", "            value if value <= $maximum + 1 => SingleEveryOrInvalid::Single(value),"),
    ("C10", OUT, "            \"{:04}-{:02}-{:02}T{:02}:{:02}:00\",", "            \"{:04}-{:02}-{:02}T{:02}:{:02}\","),
    ("C10", OUT, "        SingleEveryOrInvalid::Every() => serde_json::Value::String(\"every\".to_string()),", "        SingleEveryOrInvalid::Every() => serde_json::Value::String(\"invalid\".to_string()),"),
    # text
    ("C11", DI, "        Err(error) => error.into_bytes().into_iter().map(char::from).collect(),", "        Err(error) => String::from_utf8_lossy(error.as_bytes()).into_owned(),"),
    ("C11", DI, "    let bytes: Vec<u8> = input.iter().copied().rev().collect();", "    let bytes: Vec<u8> = input.iter().copied().filter(|byte| *byte != 0).rev().collect();"),
    ("C11", DI, "    let bytes: Vec<u8> = input.iter().copied().rev().collect();", "    let bytes: Vec<u8> = input.iter().copied().take(0x7F).rev().collect();"),
    ("C11", OUT, "            value: Some(serde_json::Value::String(text.to_string())),", "            value: Some(serde_json::Value::String(text.to_string().trim_end().to_string())),"),
    # partial decoding
    ("C12", OUT, "            Err(error) => return (output, Some((records.offset(), error.to_string()))),", "            Err(_) if output.is_empty() => return (output, None),\n            Err(error) => return (output, Some((records.offset(), error.to_string()))),"),
    ("C12", OUT, "        || record_error.is_some()\n", "        || (record_error.is_some() && record_outputs.is_empty())\n"),
    ("C12", OUT, "    let partial = application_error.is_some()\n", "    let partial = (application_error.is_some() && payload.is_some_and(|data| data.len() > 1))\n"),
    ("C12", LIB, "                        self.data = self.data.get(..self.offset)?;\n                        return Some(Err(error));", "                        self.offset = self.data.len();\n                        return Some(Err(error));"),
    # security
    ("C13", OUT, "    } else if security_context.key_supplied {", "    } else if security_context.key_supplied && payload.is_some() {"),
    ("C13", OUT, "            if ell_encrypted && matches!(mode, SecurityMode::NoEncryption) {\n                (true, None, true)", "            if ell_encrypted && matches!(mode, SecurityMode::NoEncryption) {\n                (true, Some(mode), true)"),
    ("C13", OUT, "            } else if security.encrypted {\n                parsed.data_records = None;\n            }\n            Ok(build_wireless_output(", "            } else if security.encrypted && !security.ell_encrypted {\n                parsed.data_records = None;\n            }\n            Ok(build_wireless_output("),
    ("C13", OUT, "        .then(|| payload.map(hex_string))\n        .flatten();", "        .then(|| payload.filter(|data| data.len() > 5).map(hex_string))\n        .flatten();"),
    ("C14", DE, "            .find(|(id, _)| *id == key_id)", "            .find(|(id, _)| *id as u32 == key_id as u32)"),
    ("C14", DE, "    let encrypted_len = len - (len % 16);", "    let encrypted_len = len.min(240) - (len.min(240) % 16);"),
    ("C14", DE, "        iv[7] = self.context.device_type.into();", "        iv[7] = u8::from(self.context.device_type) & 0x7F;"),
    ("C14", DE, "        *byte = (high << 4) | low;", "        *byte = (high << 4) + low;"),
    ("C14", DE, "        ((manufacturer_id as u64) << 32) | (identification_number as u64)", "        ((manufacturer_id as u64) << 16) | (identification_number as u64)"),
    ("C14", DE, "            mode => Err(DecryptionError::UnsupportedMode(mode)),", "            SecurityMode::AesCbcDynKeyIvZero => decrypt_aes_cbc_into(self.data, key, &[0u8; 16], output),\n            mode => Err(DecryptionError::UnsupportedMode(mode)),"),
    # hex text
    ("C15", OUT, "            index,\n            message: format!(\"expected a complete byte token, found {token:?}\"),", "            index: index + token.len() - digits.len(),\n            message: format!(\"expected a complete byte token, found {token:?}\"),"),
    ("C15", OUT, "        if character.is_ascii_whitespace() || matches!(character, ':' | '-') {", "        if character.is_whitespace() || matches!(character, ':' | '-') {"),
    ("C15", OUT, "                index: leading + trimmed.len() - 1,", "                index: trimmed.len() - 1,"),
    ("C15", OUT, "    if bytes.is_empty() {\n        return Err(OutputError::EmptyInput);\n    }\n    Ok(bytes)", "    Ok(bytes)"),
    # csv
    ("C17", OUT, "        record.quantities.join(\"|\"),\n", "        record.quantities.first().cloned().unwrap_or_default(),\n"),
    ("C17", OUT, "        decoded.records.len().to_string(),\n        diagnostics,", "        decoded.records.last().map_or(0, |record| record.index).to_string(),\n        diagnostics,"),
    ("C17", OUT, "        .map(|value| format!(\"{}:{}\", value.source, value.value))\n        .collect::<Vec<_>>()\n        .join(\"|\");", "        .map(|value| format!(\"{}:{:X}\", value.source, value.value))\n        .collect::<Vec<_>>()\n        .join(\"|\");"),
    ("C17", OUT, "        decoded.raw.original_frame_hex.clone(),\n    ]", "        decoded.raw.normalized_frame_hex.clone(),\n    ]"),
    # table
    ("C18", OUT, "        if width >= 100 {\n            let content = width - 19;", "        if width >= 100 {\n            let content = width - 18;"),
    ("C18", OUT, "    let key_width = (content / 3).clamp(10, 24);", "    let key_width = (content / 3).clamp(12, 24);"),
    ("C18", OUT, "        } else if width >= 72 {", "        } else if width > 72 {"),
    ("C18", OUT, "        (false, true) => record.header_hex.clone(),", "        (false, true) => String::new(),"),
    ("C18", OUT, "    let width = width.min(MAXIMUM_TABLE_WIDTH);\n", ""),
    ("C18", OUT, "                    format!(\"{}: {}\", diagnostic.severity, diagnostic.message),", "                    diagnostic.message.clone(),"),
    ("C18", OUT, "            // Control characters would break the layout of the box.\n            let character = if character.is_control() {", "            let character = if character.is_ascii_control() {"),
    # mermaid
    ("C19", OUT, "            .get(record.index % RECORD_CLASSES.len())", "            .get(record.index.min(RECORD_CLASSES.len()))"),
    ("C19", OUT, "        .replace('<', \"&lt;\")\n        .replace('>', \"&gt;\")", "        .replace(\"</\", \"&lt;/\")"),
    ("C19", OUT, "        .replace('&', \"&amp;\")\n        .replace('\"', \"&quot;\")", "        .replace('\"', \"&quot;\")\n        .replace('&', \"&amp;\")"),
    ("C19", OUT, "        if decoded.meter.identity.is_some() {\n            output.push_str(\"    METER_SG --> RECORDS_SG\\n\");\n        } else {", "        if decoded.meter.identity.is_some() && decoded.records.len() > 1 {\n            output.push_str(\"    METER_SG --> RECORDS_SG\\n\");\n        } else {"),
    ("C19", OUT, "            mermaid_escape(&diagnostic.code)\n", "            mermaid_escape(&diagnostic.message)\n"),
    # enrichment
    # rendering options
    ("C23", OUT, "            \"yaml\" | \"yml\" => Ok(Self::Yaml),", "            \"yaml\" | \"yml\" | \"yaml-legacy\" => Ok(Self::Yaml),"),
]
