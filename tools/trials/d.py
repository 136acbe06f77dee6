OUT, VI, DI, AL = "src/output.rs", "crates/m-bus-application-layer/src/value_information.rs", "crates/m-bus-application-layer/src/data_information.rs", "crates/m-bus-application-layer/src/lib.rs"
MB, WL, WD, DE = "src/mbus_data.rs", "crates/wireless-mbus-link-layer/src/lib.rs", "crates/wired-mbus-link-layer/src/lib.rs", "crates/m-bus-core/src/decryption.rs"
CORE, DR, X = "crates/m-bus-core/src/lib.rs", "crates/m-bus-application-layer/src/data_record.rs", "src/rscada_xml.rs"
TRIALS = [
    # edits that show only where two or three conditions meet
    ("C16", OUT, "            include_enrichment: true,\n        }\n    }\n}\n\n/// Options controlling decoding and", "            include_enrichment: false,\n        }\n    }\n}\n\n/// Options controlling decoding and"),
    ("C18", OUT, "            table_width: Some(DEFAULT_TABLE_WIDTH),", "            table_width: Some(MINIMUM_TABLE_WIDTH * 3),"),
    ("C14", OUT, "            decrypted,\n            Some(long_tpl_header),\n        )),", "            decrypted,\n            Some(long_tpl_header).filter(|header| !header.is_encrypted()),\n        )),"),
    ("C12", OUT, "            offset_start: Some(*offset),", "            offset_start: Some(*offset + usize::from(format_a_crc_stripped)),"),
    ("C12", OUT, "            Err(error) => return (output, Some((records.offset(), error.to_string()))),", "            Err(error) => {\n                let offset = if output.len() > 50 { output.len() } else { records.offset() };\n                return (output, Some((offset, error.to_string())));\n            }"),
    ("C05", OUT, "            .map(|address| format!(\"{:04X}\", address.manufacturer)),", "            .map(|address| format!(\"{:X}\", address.manufacturer)),"),
    ("C05", OUT, "            .map(|encryption| format!(\"{:04X}\", encryption.payload_crc)),", "            .map(|encryption| format!(\"{:X}\", encryption.payload_crc)),"),
    ("C05", OUT, "        raw: format!(\"{:04X}\", header.configuration_field.raw()),", "        raw: format!(\"{:X}\", header.configuration_field.raw()),"),
    ("C29", OUT, "format!(\"fixed type/unit 0x{device_type_and_unit:04X}\")", "format!(\"fixed type/unit 0x{device_type_and_unit:X}\")"),
    ("C05", OUT, "            transport.ell = extended_link_layer.as_ref().map(ell_output);\n        }\n        Some(UserDataBlock::VariableDataStructureWithoutTplHeader {", "            transport.ell = extended_link_layer\n                .as_ref()\n                .filter(|ell| synthetic || ell.receiver_address.is_none())\n                .map(ell_output);\n        }\n        Some(UserDataBlock::VariableDataStructureWithoutTplHeader {"),
    ("C08", OUT, "        }) if long_tpl_header.lsb_order", "        }) if long_tpl_header.lsb_order && long_tpl_header.manufacturer.is_ok()"),
    ("C13", OUT, "                    ell_encrypted,\n                )\n            }\n        }\n        _ => (false, None, false),", "                    ell_encrypted,\n                )\n            }\n        }\n        Some(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: Some(_), .. }) => (false, Some(SecurityMode::NoEncryption), false),\n        _ => (false, None, false),"),
    ("C13", OUT, "    if ell_encrypted && mode.is_none() {\n        return Err", "    if ell_encrypted && mode.is_none() && key.iter().any(|byte| *byte != 0) {\n        return Err"),
    ("C14", OUT, "                _ => \"security.decryption_failed\",\n", "                crate::decryption::DecryptionError::UnknownEncryptionState => \"security.unknown_state\",\n                _ => \"security.decryption_failed\",\n"),
    ("C07", DI, "            for (device_index, dife) in difes.clone().enumerate() {", "            for (device_index, dife) in difes.clone().enumerate().filter(|(index, dife)| *index < 8 || dife.data & 0x7F != 0x7F) {"),
    ("C07", DI, "                tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);", "                tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index % 16);"),
    ("C06", DI, "                    0xC0..=0xC9 => {\n                        length -= 0xC0;", "                    0xC0..=0xC8 => {\n                        length -= 0xC0;"),
    ("C08", DI, "                    0xE0..=0xEF => {\n                        length -= 0xE0;", "                    0xE0..=0xEE => {\n                        length -= 0xE0;"),
    ("C11", DI, "                    0x00..=0xBF => Ok(Data {", "                    0x00..=0xBE => Ok(Data {"),
    ("C11", VI, "    let mut ascii = ArrayVec::<char, 9>::new();\n    for item in data\n        .get(1..=ascii_length)", "    let mut ascii = ArrayVec::<char, 9>::new();\n    for item in data\n        .get(1..=ascii_length.min(9))"),
    ("C11", VI, "            .try_push(*item as char)", "            .try_push((*item & 0x7F) as char)"),
    ("C09", VI, "                vife.try_push(current_vife)\n                    .map_err(|_| DataInformationError::InvalidValueInformation)?;", "                if vife.try_push(current_vife).is_err() {\n                    break;\n                }"),
    ("C10", DI, "                    Some(byte) if byte & 0x80 != 0 => (\n                        SingleEveryOrInvalid::Invalid(),\n                        SingleEveryOrInvalid::Invalid(),\n                    ),\n                    _ => (minutes, hour),", "                    Some(byte) if byte & 0xC0 == 0x80 => (\n                        SingleEveryOrInvalid::Invalid(),\n                        SingleEveryOrInvalid::Invalid(),\n                    ),\n                    _ => (minutes, hour),"),
    ("C10", DI, "                let (seconds, minutes, hours) = match input.get(1) {\n                    Some(byte) if byte & 0x80 != 0 => (", "                let (seconds, minutes, hours) = match input.get(1) {\n                    Some(byte) if byte & 0x80 != 0 && byte & 0x3F != 0x3F => ("),
    ("C10", OUT, "            SingleEveryOrInvalid::Every() => serde_json::Value::String(\"every\".to_string()),", "            SingleEveryOrInvalid::Every() => serde_json::Value::Null,"),
    ("C31", AL, "                        .get(13..data.len())\n                        .ok_or(ApplicationLayerError::InsufficientData)?,\n                    extended_link_layer: None,", "                        .get(13..data.len().min(250))\n                        .ok_or(ApplicationLayerError::InsufficientData)?,\n                    extended_link_layer: None,"),
    ("C05", AL, "                let has_encryption_config_byte = data[0] == 0xA0;", "                let has_encryption_config_byte = data[0] == 0xA0 && data.len() > 6;"),
    ("C05", AL, "                        manufacturer: ManufacturerCode::from_id(u16::from_le_bytes([\n                            *iter.next().ok_or(ApplicationLayerError::InsufficientData)?,\n                            *iter.next().ok_or(ApplicationLayerError::InsufficientData)?,\n                        ])),", "                        manufacturer: ManufacturerCode::from_id(u16::from_le_bytes([\n                            *iter.next().ok_or(ApplicationLayerError::InsufficientData)?,\n                            *iter.next().ok_or(ApplicationLayerError::InsufficientData)? & 0x7F,\n                        ])),"),
    ("C29", AL, "                let device_type_and_unit = u16::from_be_bytes([", "                let device_type_and_unit = u16::from_le_bytes(["),
    ("C14", DE, "    let encrypted_len = len - (len % 16);", "    let encrypted_len = if len == 16 { 16 } else { len - (len % 16) }.min(224);"),
    ("C14", AL, "                    device_type,\n                    security_mode,\n                    access_number: short_tpl_header.access_number,", "                    device_type,\n                    security_mode,\n                    access_number: short_tpl_header.access_number.max(1),"),
    ("C04", WL, "    if crc_start < 10 {", "    if crc_start < 10 || crc_start > 250 {"),
    ("C15", OUT, "    if trimmed\n        .chars()\n        .all(|character| character.is_ascii_hexdigit())\n    {\n        if !trimmed.len().is_multiple_of(2) {", "    if trimmed\n        .chars()\n        .all(|character| character.is_ascii_hexdigit())\n    {\n        if !trimmed.len().is_multiple_of(2) && trimmed.len() > 1 {"),
    ("C15", OUT, "        .or_else(|| token.strip_prefix(\"0X\"))", "        .or_else(|| token.strip_prefix(\"0X\"))\n        .or_else(|| token.strip_prefix(\"x\"))"),
    ("C23", OUT, "        match value.trim().to_ascii_lowercase().as_str() {", "        match value.trim_start().to_ascii_lowercase().as_str() {"),
    ("C23", OUT, "        match value.trim().to_ascii_lowercase().as_str() {", "        match value.trim().to_lowercase().as_str() {"),
    ("C02", OUT, "    let mut records = records.clone();\n    while let Some(item) = records.next() {\n        match item {\n            Ok(record) => output.push(", "    let mut records = records.clone();\n    while let Some(item) = records.next() {\n        let _ = output.clone();\n        match item {\n            Ok(record) => output.push("),
    ("C26", CORE, "            0x39..=0x3F => DeviceType::ReservedSystem(value),", "            0x39..=0x3F => DeviceType::ReservedSystem(value | 0x30 & 0x3F),"),
    ("C32", DR, "        Self::parse(data, false)\n", "        Self::parse(data.get(..250).unwrap_or(data), false)\n"),
    ("C03", WD, "second_byte != third_byte || data.len() != length + 6", "second_byte != third_byte || data.len() != (length % 253) + 6"),
]
