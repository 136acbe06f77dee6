AN, MB, X = "src/annotate.rs", "src/mbus_data.rs", "src/rscada_xml.rs"
HI, WA, CL, PY = "wasm/src/highlight.rs", "wasm/src/lib.rs", "cli/src/main.rs", "python/src/lib.rs"
TRIALS = [
    # annotations, older outputs, bindings: edits that show only where two or three conditions meet
    ("C21", AN, "        0x7A | 0xA0..=0xAF => {\n            let has_enc_config", "        0x7A | 0xA0..=0xAE => {\n            let has_enc_config"),
    ("C21", AN, "            let mut offset = base + 1;\n", "            let mut offset = base + 1;\n            let app_data = if app_data.len() > 250 { &app_data[..250] } else { app_data };\n"),
    ("C21", AN, "                Some(0x78 | 0x7A | 0xA0..=0xAF) => {", "                Some(0x78 | 0x7A | 0xA1..=0xAF) => {"),
    ("C21", AN, "            let max_data_len = 16.min(remaining - 2);\n        let mut found = false;\n\n", "            let max_data_len = 16.min(remaining - 2);\n        let mut found = false;\n"),
    ("C21", AN, "                // Insert remainder if there are bytes after the CRC\n                if crc_end < orig_end {", "                // Insert remainder if there are bytes after the CRC\n                if crc_end < orig_end && crc_start < 240 {"),
    ("C21", AN, "            group: seg.group,\n            layer: seg.layer,\n        });\n    }\n\n    // Now insert", "            group: seg.group.filter(|group| *group < 60),\n            layer: seg.layer,\n        });\n    }\n\n    // Now insert"),
    ("C21", AN, "                    offset += 1;\n                    record_index += 1;\n                    continue;", "                    offset += 1;\n                    record_index += usize::from(offset < data.len());\n                    if offset == 1 { record_index = 0; }\n                    continue;"),
    ("C21", AN, "                            if dif_byte == 0x0F {\n                                \"Manufacturer Specific\"", "                            if dif_byte == 0x1F {\n                                \"Manufacturer Specific\""),
    ("C21", AN, "                    let pt_size = plaintext.len() + 1; // 1 for length byte", "                    let pt_size = plaintext.len() + 1; // 1 for length byte\n                            let _ = ();"),
    ("C21", AN, "        let layer_changed = current_layer != Some(seg.layer);", "        let layer_changed = current_layer != Some(seg.layer) && seg.kind != SegmentKind::Crc;"),
    ("C21", AN, "            current_layer = Some(seg.layer);\n            current_group = None;", "            current_layer = Some(seg.layer);"),
    ("C21", AN, "            let ch = if byte.is_ascii_graphic() || *byte == b' ' {", "            let ch = if byte.is_ascii_graphic() || *byte == b' ' || *byte == 0x7F {"),
    ("C21", AN, "            if byte_count > max_hex_bytes {", "            if byte_count >= max_hex_bytes {"),
    ("C21", AN, "        data.get(9).copied().unwrap_or(0)\n        )),\n        group: None,\n        layer: Layer::Frame,", "        data.get(9).copied().unwrap_or(0) & 0x7F\n        )),\n        group: None,\n        layer: Layer::Frame,"),
    ("C28", MB, "            .filter(|s| !s.is_empty());\n            let quantity", "            .filter(|s| s.len() > 1);\n            let quantity"),
    ("C28", MB, "        }) if ell.encryption.is_some() => {\n            summary.access_number = Some(ell.access_number);", "        }) if ell.encryption.is_some() && ell.receiver_address.is_none() => {\n            summary.access_number = Some(ell.access_number);"),
    ("C28", MB, "    summary.function = parsed.frame.function.map(|function| function.to_string());", "    summary.function = parsed.frame.function.map(|function| format!(\"{function:?}\"));"),
    ("C28", MB, "    let mut yaml = serde_yaml::to_string(parsed)\n        .or_else(|_| serde_yaml::to_string(&json))\n        .unwrap_or_default();", "    let mut yaml = serde_yaml::to_string(parsed).unwrap_or_default();"),
    ("C28", MB, "                            ) => Some(long_tpl_header),\n                            _ => None,\n                        };\n                        parsed.data_records =\n                            Some(user_data::DataRecords::new(decrypted_data, long_header));", "                            ) => Some(long_tpl_header),\n                            _ => None,\n                        };\n                        parsed.data_records =\n                            Some(user_data::DataRecords::new(decrypted_data, long_header.filter(|h| !h.lsb_order)));"),
    ("C28", MB, "                        parsed.data_records = Some(user_data::DataRecords::new(\n                            decrypted_data,\n                            Some(long_tpl_header),\n                        ));\n                        decrypted = true;", "                        let _ = long_tpl_header;\n                        parsed.data_records = Some(user_data::DataRecords::new(\n                            decrypted_data,\n                            None,\n                        ));\n                        decrypted = true;"),
    ("C28", MB, "        summary.encrypted_payload_hex = variable_data_block(user_data).map(hex_string);", "        summary.encrypted_payload_hex = variable_data_block(user_data).map(|b| hex_string(&b[..b.len().min(128)]));"),
    ("C28", MB, "            summary.identification_number = Some(identification_number.to_string());\n            summary.access_number = Some(*access_number);", "            summary.identification_number = Some(identification_number.number.to_string());\n            summary.access_number = Some(*access_number);"),
    ("C20", X, "        0x07 => Ok(DecodedValue::Real(int_decode(data.get(..8).ok_or(())?))),", "        0x07 => Ok(DecodedValue::Real(int_decode(data.get(..7).ok_or(())?))),"),
    ("C20", X, "    if bytes.last().is_some_and(|byte| byte >> 4 == 0xF) {", "    if bytes.last().is_some_and(|byte| byte >> 4 >= 0xE) {"),
    ("C20", X, "            if lvar <= 0xBF {", "            if lvar < 0xBF {"),
    ("C20", X, "        value = value.wrapping_shl(8).wrapping_add(i64::from(byte));", "        value = value.wrapping_shl(8) | i64::from(byte);"),
    ("C20", X, "        out.push_str(&format!(\"        <Status>{status:02X}</Status>\\n\"));", "        out.push_str(&format!(\"        <Status>{status:X}</Status>\\n\"));"),
    ("C20", X, "    let status = (!synthetic).then_some(short_tpl_header.status.bits());", "    let status = (!synthetic).then_some(short_tpl_header.status.bits() & 0x1F);"),
    ("C20", X, "    let tariff = if difes.is_empty() {", "    let tariff = if difes.is_empty() || difes.len() > 9 {"),
    ("C27", HI, "                if quoted && characters.peek() == Some(&'\"') {", "                if quoted && column > 0 && characters.peek() == Some(&'\"') {"),
    ("C27", HI, "    let appended_newline = !source.ends_with('\\n');", "    let appended_newline = !source.ends_with(['\\n', '\\u{2028}']);"),
    ("C27", HI, "                html.push('\\r');\n                html.push(characters.next().unwrap_or('\\n'));", "                html.push(characters.next().unwrap_or('\\n'));"),
    ("C27", HI, "            '\\'' => html.push_str(\"&#39;\"),", "            '\\'' => html.push_str(\"&#39;\"),\n            '\\0' => html.push('\\u{FFFD}'),"),
    ("C27", HI, "        \"yaml\" | \"yml\" => \"yaml\",", "        \"yaml\" | \"yml\" => \"yaml\",\n        \"html\" => \"html\","),
    ("C24", WA, "    let Some(key_hex) = key_hex.filter(|value| !value.trim().is_empty()) else {", "    let Some(key_hex) = key_hex.filter(|value| !value.is_empty()) else {"),
    ("C24", WA, "        table_width: width,", "        table_width: width.or(Some(100)),"),
    ("C24", WA, "        include_enrichment: include_enrichment.unwrap_or(true),", "        include_enrichment: include_enrichment != Some(false) || key_hex.is_some(),"),
    ("C24", WA, "    m_bus_render(data, format, Some(key_hex.to_string()), None, None).unwrap_or_else(|value| {", "    m_bus_render(data.trim_end_matches('\\0'), format, Some(key_hex.to_string()), None, None).unwrap_or_else(|value| {"),
    ("C24", CL, "                    Some(100)", "                    Some(120)"),
    ("C24", CL, "            print!(\"{rendered}\");", "            print!(\"{}\", rendered.trim_end_matches('\\r'));"),
    ("C24", CL, "                (Some(path), None) => fs::read_to_string(&path).map_err(|error| {", "                (Some(path), None) => fs::read(&path).map(|b| String::from_utf8_lossy(&b).replace('\\u{FFFD}', \"\")).map_err(|error| {"),
    ("C24", CL, "    if value.len() != 32 || ", "    let value = value.trim();\n    if value.len() != 32 || "),
    ("C24", PY, "        if bytes.is_empty() {\n            return Err(parser_error(OutputError::EmptyInput));\n        }", "        if bytes.is_empty() && label == \"data\" {\n            return Err(parser_error(OutputError::EmptyInput));\n        }"),
    ("C24", PY, "                include_enrichment: true,\n            },\n            ..RenderOptions::default()", "                include_enrichment: true,\n            },\n            table_width: None"),
    ("C24", PY, "    let bytes = decode_hex_bytes(data_record).map_err(parser_error)?;\n    records_json(&bytes)", "    let bytes = decode_hex_bytes(data_record.trim_start_matches(\"0x\")).map_err(parser_error)?;\n    records_json(&bytes)"),
]
