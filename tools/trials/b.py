L = "crates/wired-mbus-link-layer/src/lib.rs"
K = "crates/m-bus-core/src/lib.rs"
X = "src/rscada_xml.rs"
M = "src/mbus_data.rs"
CLI = "cli/src/main.rs"
PY = "python/src/lib.rs"
W = "wasm/src/lib.rs"
H = "wasm/src/highlight.rs"
TRIALS = [
    # C03
    ("C03", L, "second_byte != third_byte || data.len() != length + 6", "second_byte != third_byte || data.len() < length + 6"),
    ("C03", L, "second_byte != third_byte || data.len() != length + 6", "data.len() != length + 6"),
    ("C03", L, "                    0x53 => Ok(WiredFrame::ControlFrame {", "                    0x53 | 0x73 => Ok(WiredFrame::ControlFrame {"),
    ("C03", L, "if data.len() == 5 && *data.last()", "if data.len() >= 5 && *data.last()"),
    ("C03", L, "            253 => Self::Secondary,", "            252 | 253 => Self::Secondary,"),
    ("C03", K, "0x18 => Ok(Self::RspUd {\n                acd: false,\n                dfc: true,", "0x18 => Ok(Self::RspUd {\n                acd: true,\n                dfc: false,"),
    ("C03", K, "0x5A => Ok(Self::ReqUd1 { fcb: false }),", "0x5A | 0x4A => Ok(Self::ReqUd1 { fcb: false }),"),
    ("C03", L, "if data == [0xE5] {", "if first_byte == 0xE5 && data.len() < 3 {"),
    # C20
    ("C20", X, "        if byte >> 4 < 0xA {", "        if byte >> 4 <= 0xA {"),
    ("C20", X, "    if bytes.last().is_some_and(|byte| byte >> 4 == 0xF) {", "    if bytes.first().is_some_and(|byte| byte >> 4 == 0xF) {"),
    ("C20", X, "    let hour = bytes[1] & 0x1F;\n    let day = bytes[2] & 0x1F;", "    let hour = bytes[1] & 0x0F;\n    let day = bytes[2] & 0x1F;"),
    ("C20", X, "    if bytes[1] & 0x80 != 0 {\n        return", "    if bytes[0] & 0x80 != 0 {\n        return"),
    ("C20", X, "0x78..=0x7B => {\n                    normalized += 10f64", "0x78..=0x7B => {\n                    normalized -= 10f64"),
    ("C20", X, "0x7D => {\n                    normalized *= 1000.0;", "0x7D | 0xFD => {\n                    normalized *= 100.0;"),
    ("C20", X, "    if vif & 0x80 != 0 && vif != 0xFD && vif != 0xFB {", "    if vif & 0x80 != 0 && vif != 0xFD && vif != 0xFB && vif != 0xFC {"),
    ("C20", X, "            if lvar <= 0xBF {", "            if lvar < 0xBF {"),
    ("C20", X, "        .map(|chars| chars.iter().rev().collect());", "        .map(|chars| chars.iter().collect());"),
    ("C20", X, "        bit_index += 2;\n    }\n    result\n}\n\nfn device", "        bit_index += if bit_index < 8 { 2 } else { 1 };\n    }\n    result\n}\n\nfn device"),
    ("C20", X, "    match ((cnt1_type & 0xC0) >> 6) | ((cnt2_type & 0xC0) >> 4) {", "    match ((cnt1_type & 0xC0) >> 6) | ((cnt2_type & 0x40) >> 4) {"),
    ("C20", X, "    let cnt1_type = (device_type_and_unit >> 8) as u8;\n    let cnt2_type = (device_type_and_unit & 0xFF) as u8;", "    let cnt2_type = (device_type_and_unit >> 8) as u8;\n    let cnt1_type = (device_type_and_unit & 0xFF) as u8;"),
    ("C20", X, "    let function = if status & 0x40 != 0 {", "    let function = if status & 0x02 != 0 {"),
    ("C20", X, "        0x0E => \"100 kJ\",\n        0x0D => \"MJ\",", "        0x0D => \"100 kJ\",\n        0x0E => \"MJ\","),
    ("C20", X, "0x2A..=0x2F | 0x31..=0x34 | 0x38..=0x3F", "0x2A..=0x2F | 0x31..=0x33 | 0x38..=0x3F"),
    ("C20", X, "    let id_msb = (((id / 10_000_000) % 10) << 4 | ((id / 1_000_000) % 10)) as u8;", "    let id_msb = (((id / 10_000_000) % 10) * 10 + ((id / 1_000_000) % 10)) as u8;"),
    ("C20", X, "                '&' => out.push_str(\"&amp;\"),", "                '&' if !text.contains(';') => out.push_str(\"&amp;\"),"),
    ("C20", X, "(0x25D, 1.0e-2, \"°F\", \"Return temperature\"),", "(0x25D, 1.0e-1, \"°F\", \"Return temperature\"),"),
    ("C20", X, "        0x03 => Ok(DecodedValue::Real(int_decode(data.get(..3).ok_or(())?))),", "        0x03 => Ok(DecodedValue::Real(int_decode(data.get(..3).ok_or(())?).abs())),"),
    ("C20", X, "        || (vif_raw == 0xFD && vife == Some(0x70));", "        || (vif_raw == 0xFD && vife == Some(0x71));"),
    ("C20", X, "            function: if dif == 0x1F {", "            function: if dif == 0x1F && !data.is_empty() {"),
    ("C20", X, "        for (i, record) in records.clone().flatten().enumerate() {", "        for (i, record) in records.clone().flatten().take(100).enumerate() {"),
    # C24
    ("C24", CLI, "            print!(\"{rendered}\");", "            println!(\"{}\", rendered.trim_end());"),
    ("C24", CLI, "                    Some(100)\n", "                    Some(80)\n"),
    ("C24", CLI, "include_enrichment: !no_enrichment,", "include_enrichment: !no_enrichment || key.is_some(),"),
    ("C24", CLI, "    let bytes = hex::decode(value)", "    let bytes = hex::decode(value.to_ascii_lowercase().replace(\"ff\", \"fe\"))"),
    ("C24", CLI, "                (None, Some(data)) => data,", "                (None, Some(data)) => data.replace(',', \" \"),"),
    ("C24", CLI, "    if value.len() != 32 ||", "    let value = value.trim();\n    if value.len() != 32 ||"),
    ("C24", PY, "                include_enrichment: true,\n", "                include_enrichment: key.is_none(),\n"),
    ("C24", PY, "            table_width: width,", "            table_width: width.map(|width| width.max(40)),"),
    ("C24", PY, "        if bytes.is_empty() {\n            return Err(parser_error(OutputError::EmptyInput));\n        }\n", ""),
    ("C24", PY, "    if let Ok(text) = value.extract::<String>() {\n", "    if let Ok(text) = value.extract::<String>() {\n        let text = text.replace(',', \" \");\n"),
    ("C24", PY, "    let data = extract_bytes(data, \"data\")?;\n    let format = OutputFormat::from_str(format).map_err(parser_error)?;\n", "    let data = extract_bytes(data, \"data\")?;\n    let format = OutputFormat::from_str(format).unwrap_or(OutputFormat::Json);\n"),
    ("C24", W, "include_enrichment: include_enrichment.unwrap_or(true),", "include_enrichment: include_enrichment.unwrap_or(key_hex.is_none()),"),
    ("C24", W, "&JsValue::from_f64(offset as f64),", "&JsValue::from_f64(offset as f64 / 2.0),"),
    ("C24", W, "&JsValue::from_str(error.layer()),", "&JsValue::from_str(error.code()),"),
    ("C24", W, "        table_width: width,", "        table_width: width.filter(|width| *width > 0),"),
    ("C24", W, "    let Some(key_hex) = key_hex.filter(|value| !value.trim().is_empty()) else {", "    let Some(key_hex) = key_hex.filter(|value| value.trim().len() > 1) else {"),
    # C26
    ("C26", K, "0x2B..=0x2F => DeviceType::ReservedEnvironmental(value),", "0x2B..=0x2F => DeviceType::ReservedEnvironmental(value & 0x0F),"),
    ("C26", K, "            0x39..=0x3F => DeviceType::ReservedSystem(value),\n            0x40..=0xFE", "            0x39..=0x3E => DeviceType::ReservedSystem(value),\n            0x3F..=0xFE"),
    ("C26", K, "            Self::Reserved14 => 14,", "            Self::Reserved14 => 12,"),
    ("C26", K, "            Self::ReservedHigher(mode) => *mode & 0b0001_1111,", "            Self::ReservedHigher(mode) => *mode & 0b0000_1111,"),
    ("C26", K, "((self.raw >> 13) & 0b0000_0111) as u8", "((self.raw >> 13) & 0b0000_0011) as u8"),
    ("C26", K, "            && third_letter.is_ascii_uppercase()", "            && third_letter.is_ascii_alphabetic()"),
    ("C26", K, "        if lower > 9 || upper > 9 {", "        if lower > 9 || upper > 0xA {"),
    ("C26", K, "        let first_letter = ((id / (32 * 32)) + 64) as u8 as char;", "        let first_letter = (((id / (32 * 32)) & 0x1F) + 64) as u8 as char;"),
    # C27
    ("C27", H, "                html.push('\\r');\n", ""),
    ("C27", H, "                    field.push(characters.next().unwrap_or('\"'));", "                    characters.next();"),
    ("C27", H, "            '>' => html.push_str(\"&gt;\"),", "            '>' => html.push_str(\"&gt\"),"),
    ("C27", H, "    push_csv_field(&mut html, &field, column);\n    html.push_str(\"</span>\");\n    html", "    if !field.is_empty() && !quoted {\n        push_csv_field(&mut html, &field, column);\n    }\n    html.push_str(\"</span>\");\n    html"),
    ("C27", H, "    let appended_newline = !source.ends_with('\\n');", "    let appended_newline = !source.ends_with(['\\n', '\\r']);"),
    ("C27", H, "        html.remove(final_newline);", "        html.truncate(final_newline);\n        html.push_str(\"</span>\");"),
    # C28
    ("C28", M, "    let mut decrypted_buffer = [0u8; 256];\n    #[cfg(not(feature = \"decryption\"))]\n    let _ = key;\n\n    // Try wired first", "    let mut decrypted_buffer = [0u8; 128];\n    #[cfg(not(feature = \"decryption\"))]\n    let _ = key;\n\n    // Try wired first"),
    ("C28", M, "            summary.access_number = Some(short_tpl_header.access_number);", "            summary.access_number = Some(short_tpl_header.access_number & 0x7F);"),
    ("C28", M, "                Some(DataType::Number(n)) | Some(DataType::LossyNumber(n)) => Some(n),", "                Some(DataType::Number(n)) => Some(n),"),
    ("C28", M, "        headers.push(format!(\"DataPoint{}_Value\", i));", "        headers.push(format!(\"DataPoint{}_Value\", i - 1));"),
    ("C28", M, "        wireless_mbus_link_layer::strip_format_a_crcs(&data, &mut crc_buf).unwrap_or(&data);\n    if let Ok(mut parsed) =", "        wireless_mbus_link_layer::strip_format_a_crcs(&data, &mut crc_buf[..256]).unwrap_or(&data);\n    if let Ok(mut parsed) ="),
    ("C28", M, "                    let records: Vec<_> = data_records.flatten().collect();", "                    let records: Vec<_> = data_records.flatten().take(32).collect();"),
    ("C28", M, "    let payload_start = 6 + user_data_len.checked_sub(variable_data_len)?;", "    let payload_start = 7 + user_data_len.checked_sub(variable_data_len)?;"),
    ("C28", M, "    s.replace('\"', \"#quot;\")\n        .replace('[', \"#91;\")", "    s.replace('\"', \"'\")\n        .replace('[', \"#91;\")"),
    ("C28", M, "        summary.encrypted_payload_hex = variable_data_block(user_data).map(hex_string);", "        summary.encrypted_payload_hex = variable_data_block(user_data).map(|d| hex_string(d.get(1..).unwrap_or(d)));"),
]
