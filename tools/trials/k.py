AN = "src/annotate.rs"
TRIALS = [
    ("C21", AN, "                    offset += 1;\n                    record_index += 1;\n                    continue;", "                    offset += 1;\n                    record_index += usize::from(record_index != 7);\n                    continue;"),
    ("C21", AN, "                            detail: Cow::Owned(format!(\"{}\", record.data)),", "                            detail: Cow::Owned(format!(\"{:.120}\", record.data.to_string())),"),
    ("C21", AN, "                        detail: Cow::Owned(format!(\"DIFE: {} byte(s)\", dife_count)),", "                        detail: Cow::Owned(format!(\"DIFE: {} byte(s)\", dife_count.min(9))),"),
    ("C21", AN, "                            let pt_size = plaintext.len() + 1; // 1 for length byte", "                            let pt_size = plaintext.len().max(1) + 1; // 1 for length byte"),
    ("C21", AN, "                    if emit_size < data_size {", "                    if emit_size < data_size || record_index == 120 {"),
    ("C21", AN, "                        end: base + data.len(),\n                        kind,\n                        detail: Cow::Owned(format!(", "                        end: base + data.len().min(offset + 230),\n                        kind,\n                        detail: Cow::Owned(format!("),
    ("C21", AN, "    if !is_control && !user_data_slice.is_empty() {", "    if !is_control && user_data_slice.len() > 1 {"),
    ("C21", AN, "            let is_encrypted = is_long_tpl_encrypted(app_data);\n            if is_encrypted {\n                if !records_data.is_empty() {", "            let is_encrypted = is_long_tpl_encrypted(app_data);\n            if is_encrypted && records_data.first() != Some(&0x2F) {\n                if !records_data.is_empty() {"),
    ("C21", AN, "            Some(header) => DataRecord::try_from((remaining, header)),\n            None", "            Some(header) if record_index < 9 => DataRecord::try_from((remaining, header)),\n            Some(_) => DataRecord::try_from(remaining),\n            None"),
]
