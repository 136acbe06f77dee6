O = "src/output.rs"
TRIALS = [
    # the canonical model and its renderings: edits that show only under rare or combined conditions
    ("C22", O, "    let bytes = decode_hex_bytes(input)?;\n    let mut decoded = decode_bytes(&bytes, options)?;", "    thread_local!(static LAST: std::cell::RefCell<(String, Vec<u8>)> = const { std::cell::RefCell::new((String::new(), Vec::new())) });\n    let known = LAST.with_borrow(|last| (input.len() > 60 && last.0.len() == input.len() && last.0.get(..40) == input.get(..40)).then(|| last.1.clone()));\n    let bytes = match known {\n        Some(bytes) => bytes,\n        None => decode_hex_bytes(input)?,\n    };\n    LAST.with_borrow_mut(|last| *last = (input.to_string(), bytes.clone()));\n    let mut decoded = decode_bytes(&bytes, options)?;"),
    ("C22", O, "fn enrichment_for(code: &str) -> Option<EnrichmentOutput> {\n    crate::manufacturers::lookup_manufacturer(code)", "fn enrichment_for(code: &str) -> Option<EnrichmentOutput> {\n    static MISSES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n    if crate::manufacturers::lookup_manufacturer(code).is_none() {\n        MISSES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    }\n    crate::manufacturers::lookup_manufacturer(code).filter(|_| MISSES.load(std::sync::atomic::Ordering::Relaxed) < 4096)"),
    ("C22", O, "    let mut crc_buffer = [0u8; 512];\n", "    thread_local!(static BUFFER: std::cell::RefCell<[u8; 512]> = const { std::cell::RefCell::new([0u8; 512]) });\n    let mut crc_buffer = BUFFER.with_borrow(|buffer| *buffer);\n    BUFFER.with_borrow_mut(|buffer| buffer[0] = data[0]);\n"),
    ("C08", O, "            *byte = sum as u8;\n            carry = sum >> 8;\n", "            *byte = sum as u8;\n            carry = (sum >> 8) & u16::from(bytes.len() <= 16 || sum & 0xFF != 0 || *byte != 0 || bytes[..12] != [0; 12]);\n"),
    ("C08", O, "    while output.contains('.') && output.ends_with('0') {\n        output.pop();\n    }", "    if output.contains('.') {\n        for _ in 0..6 {\n            if output.ends_with('0') {\n                output.pop();\n            }\n        }\n    }"),
    ("C08", O, "        if a.is_none() && b.is_none() && carry == 0 {", "        if a.is_none() && b.is_none() && (carry == 0 || output.len() > 18) {"),
    ("C08", O, "    left.len().cmp(&right.len()).then_with(|| left.cmp(right))", "    left.len().cmp(&right.len()).then_with(|| left.get(..19).unwrap_or(left).cmp(right.get(..19).unwrap_or(right)))"),
    ("C08", O, "            0x7F => break,\n            _ => {}\n        }\n    }\n    offset", "            _ => {}\n        }\n    }\n    offset"),
    ("C08", O, "            0x78..=0x7B => offset = Some(isize::from(extension.data & 0b11) - 3),", "            0x78..=0x7B if offset.is_none() => offset = Some(isize::from(extension.data & 0b11) - 3),"),
    ("C08", O, "        (0xFD, Some(first)) if first.data & 0x7F == 0x7D => 2,\n", ""),
    ("C08", O, "        0xF0..=0xF4 => {\n            let length = usize::from(marker - 0xEC) * 4;", "        0xF0..=0xF3 => {\n            let length = usize::from(marker - 0xEC) * 4;"),
    ("C08", O, "        0xF6 => signed_le_decimal(data.get(1..=64)?),\n", "        0xF6 => signed_le_decimal(data.get(1..=63)?),\n"),
    ("C08", O, "    } else if value == f64::NEG_INFINITY {\n        (None, Some(\"negative_infinity\".to_string()))", "    } else if value <= f64::from(f32::MIN) {\n        (None, Some(\"negative_infinity\".to_string()))"),
    ("C10", O, "        _ if second.is_some() => Some(format!(", "        _ if second.and_then(single).is_some() => Some(format!("),
    ("C10", O, "        SingleEveryOrInvalid::Every() => serde_json::Value::String(\"every\".to_string()),", "        SingleEveryOrInvalid::Every() if core::mem::size_of::<T>() == 1 => serde_json::Value::String(\"every\".to_string()),"),
    ("C13", O, "    let partial = application_error.is_some()\n        || record_error.is_some()\n        || (security_context.encrypted && !security_context.decrypted);", "    let partial = application_error.is_some()\n        || record_error.is_some()\n        || (security_context.encrypted && !security_context.decrypted && !security_context.ell_encrypted);"),
    ("C13", O, "            (\n                !matches!(mode, SecurityMode::NoEncryption),\n                Some(mode),\n                false,\n            )", "            (\n                !matches!(mode, SecurityMode::NoEncryption | SecurityMode::Reserved(15)),\n                Some(mode),\n                false,\n            )"),
    ("C13", O, "    } else if security_context.key_supplied {\n        diagnostics.push", "    } else if security_context.key_supplied && application_error.is_none() {\n        diagnostics.push"),
    ("C05", O, "                if link != application_identity {\n                    alternates.push(link);", "                if (&link.id, &link.manufacturer_code) != (&application_identity.id, &application_identity.manufacturer_code) {\n                    alternates.push(link);"),
    ("C05", O, "            .map(|address| format!(\"{:04X}\", address.manufacturer)),", "            .map(|address| format!(\"{:04X}\", address.manufacturer & 0x7FFF)),"),
    ("C05", O, "                source: \"application.fixed\".to_string(),\n                raw: format!(\"{:02X}\", status.bits()),", "                source: \"application.fixed\".to_string(),\n                raw: format!(\"{:X}\", status.bits()),"),
    ("C29", O, "                device_type: Some(format!(\"fixed type/unit 0x{device_type_and_unit:04X}\")),", "                device_type: Some(format!(\"fixed type/unit 0x{:04X}\", device_type_and_unit & 0x7FFF)),"),
    ("C12", O, "            Err(error) => return (output, Some((records.offset(), error.to_string()))),", "            Err(error) => return (output, Some((records.offset().min(250), error.to_string()))),"),
    ("C12", O, "            message: format!(\"failed to parse data record at byte offset {offset}: {message}\"),", "            message: format!(\"failed to parse data record at byte offset {}: {message}\", offset.min(data.len() - 1)),"),
    ("C16", O, "            byte_length: original.len(),", "            byte_length: normalized.len(),"),
    ("C16", O, "            original_frame_hex: hex_string(original),\n            normalized_frame_hex: hex_string(normalized),", "            original_frame_hex: hex_string(original),\n            normalized_frame_hex: hex_string(if security_context.key_supplied { original } else { normalized }),"),
    ("C16", O, "        .and_then(|value| (!value.units.is_empty()).then(|| unit_output(value.units.as_slice())));", "        .and_then(|value| (!value.units.is_empty()).then(|| unit_output(value.units.as_slice())))\n        .filter(|value| !value.trim().is_empty());"),
    ("C17", O, "        record.storage_number.to_string(),\n        record.tariff.to_string(),\n        record.subunit.to_string(),\n        record.quantities.join(\"|\"),", "        (record.storage_number as u32).to_string(),\n        record.tariff.to_string(),\n        record.subunit.to_string(),\n        record.quantities.join(\"|\"),"),
    ("C17", O, "        decoded.frame.address.clone().unwrap_or_default(),\n        identity", "        decoded.frame.address.clone().filter(|_| !decoded.records.is_empty() || decoded.diagnostics.is_empty()).unwrap_or_default(),\n        identity"),
    ("C17", O, "        Some(serde_json::Value::Number(value)) => value.to_string(),\n        Some(serde_json::Value::Object", "        Some(serde_json::Value::Number(value)) => value.as_f64().map_or_else(String::new, |value| value.to_string()),\n        Some(serde_json::Value::Object"),
    ("C17", O, "        None if record.value.kind == \"manufacturer_specific\" => record.data_hex.replace(' ', \"\"),", "        None if record.value.kind == \"manufacturer_specific\" => record.data_hex.replacen(' ', \"\", 64),"),
    ("C18", O, "    let key_width = (content / 3).clamp(10, 24);", "    let key_width = (content / 3).clamp(10, 24) + usize::from(width > 60_000);"),
    ("C18", O, "            if previous_length != 0 && UnicodeWidthStr::width(line.as_str()) > width {", "            if previous_length != 0 && line.chars().map(|c| UnicodeWidthStr::width(c.to_string().as_str())).sum::<usize>() > width {"),
    ("C18", O, "            let character = if character.is_control() {", "            let character = if character.is_ascii_control() {"),
    ("C18", O, "            let reading_width = (content * 52 / 100).max(24);", "            let reading_width = (content * 52 / 100).max(24) + usize::from(decoded.records.len() > 99);"),
    ("C18", O, "                (content * 34 / 100).max(18),\n                12,\n                11,\n                13,\n                content.saturating_sub(3", "                (content * 34 / 100).max(18),\n                12,\n                11,\n                13,\n                content.saturating_sub(usize::from(width % 50 == 49) + 3"),
    ("C19", O, "        if let Some(version) = identity.version {\n            output.push_str(&format!(\"        METER_VERSION", "        if let Some(version) = identity.version.filter(|version| *version < 255) {\n            output.push_str(&format!(\"        METER_VERSION"),
    ("C19", O, "    if let Some(diagnostic) = decoded.diagnostics.first() {\n        output.push_str(&format!(\n            \"    DIAG[", "    if let Some(diagnostic) = decoded.diagnostics.first().filter(|_| decoded.diagnostics.len() < 3) {\n        output.push_str(&format!(\n            \"    DIAG["),
    ("C23", O, "                crate::decryption::DecryptionError::InvalidKeyLength => \"security.invalid_key\",", "                crate::decryption::DecryptionError::InvalidKeyLength\n                | crate::decryption::DecryptionError::InvalidDataLength => \"security.invalid_key\","),
    ("C23", O, "            \"annotated\" | \"hexview\" => Ok(Self::Annotated),", "            \"annotated\" | \"hexview\" | \"annotated_text\" => Ok(Self::Annotated),"),
    ("C23", O, "        match value.trim().to_ascii_lowercase().as_str() {", "        match value.trim().to_lowercase().as_str() {"),
    ("C15", O, "        if character.is_ascii_whitespace() || matches!(character, ':' | '-') {", "        if character.is_whitespace() || matches!(character, ':' | '-') {"),
    ("C15", O, "    let digits = token\n        .strip_prefix(\"0x\")\n        .or_else(|| token.strip_prefix(\"0X\"))\n        .unwrap_or(token);", "    let digits = token.trim_start_matches(\"0x\").trim_start_matches(\"0X\");"),
    ("C26", O, "            .and_then(|identity| identity.manufacturer_code.as_deref())\n            .and_then(enrichment_for)", "            .filter(|identity| identity.version != Some(0xFF))\n            .and_then(|identity| identity.manufacturer_code.as_deref())\n            .and_then(enrichment_for)"),
    ("C25", O, "            code: \"security.feature_unavailable\",\n            message: \"this build does not include decryption support\".to_string(),", "            code: if matches!(mode, Some(SecurityMode::AesCbc128IvNonZero | SecurityMode::AesCbc128IvZero)) { \"security.feature_unavailable\" } else { \"security.unsupported_mode\" },\n            message: \"this build does not include decryption support\".to_string(),"),
    ("C14", O, "    let mut provider = crate::decryption::StaticKeyProvider::<1>::new();", "    let output = if output.len() > 240 { &mut output[..240] } else { output };\n    let mut provider = crate::decryption::StaticKeyProvider::<1>::new();"),
    ("C02", O, "    let mut digits = vec![0u8];\n    for byte in magnitude.iter().rev() {", "    let mut digits = vec![0u8];\n    let padding = bytes.len() * bytes.len() * usize::from(bytes.len() > 32);\n    for byte in core::iter::repeat_n(&0u8, padding).chain(magnitude.iter().rev()) {"),
]
