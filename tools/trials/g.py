VI, DI, AL = "crates/m-bus-application-layer/src/value_information.rs", "crates/m-bus-application-layer/src/data_information.rs", "crates/m-bus-application-layer/src/lib.rs"
TRIALS = [
    # the core crates: edits that show only under rare or combined conditions
    ("C07", DI, "storage_number += u64::from(dife & 0x0f) << ((device_index * 4) + 1);", "storage_number += u64::from((dife & 0x0f) << 1) << (device_index * 4).min(32);"),
    ("C07", DI, "tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);", "tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index & 0xF);"),
    ("C07", DI, "device |= u64::from((dife & 0x40) >> 6) << device_index;", "device |= u64::from(((dife & 0x40) >> 6) << (device_index & 7)) << (device_index & 8);"),
    ("C07", DI, "            0x7F => SpecialFunctions::GlobalReadoutRequest,", "            0x7F | 0x6F => SpecialFunctions::GlobalReadoutRequest,"),
    ("C07", DI, "            () if dif.has_extension() && offset > MAXIMUM_DATA_INFORMATION_SIZE => {", "            () if dif.has_extension() && (offset > MAXIMUM_DATA_INFORMATION_SIZE || (offset == MAXIMUM_DATA_INFORMATION_SIZE && data.len() > 240)) => {"),
    ("C08", DI, "    let negative = shift > 0 && (data_value >> (shift - 1)) & 1 == 1;", "    let negative = shift > 0 && (data_value >> (shift - 1)) & 1 == 1 && (byte_size != 5 || data_value & 0xFF != 0);"),
    ("C08", DI, "        if digit > 9 {", "        if digit > 9 && !(i + 1 == num_digits && num_digits > 12 && digit == 0xF) {"),
    ("C08", DI, "    if data.len() < num_digits.div_ceil(2) {", "    if data.len() <= num_digits / 2 && num_digits > 16 {"),
    ("C08", DI, "        let negative = bytes.last().is_some_and(|byte| byte & 0x80 != 0);", "        let negative = bytes.last().is_some_and(|byte| byte & 0x80 != 0 && *byte != 0x80);"),
    ("C08", DI, "            -(magnitude + 1.0)", "            -magnitude - f64::from(u8::from(byte_size < 48))"),
    ("C08", DI, "                        value: Some(DataType::Number(f64::from(f32::from_le_bytes(x)))),", "                        value: Some(DataType::Number(match f32::from_le_bytes(x) {\n                            value if value.is_subnormal() => 0.0,\n                            value => f64::from(value),\n                        })),"),
    ("C08", DI, "    let signed_value = data_value * sign as f64;", "    let signed_value = if data_value == 0.0 { 0.0 } else { data_value * sign as f64 };"),
    ("C11", DI, "        Err(error) => error.into_bytes().into_iter().map(char::from).collect(),", "        Err(error) => match error.utf8_error().error_len() {\n            None => String::from_utf8_lossy(error.as_bytes()).into_owned(),\n            _ => error.into_bytes().into_iter().map(char::from).collect(),\n        },"),
    ("C11", DI, "    let bytes: Vec<u8> = input.iter().copied().rev().collect();", "    let mut bytes: Vec<u8> = input.iter().copied().rev().collect();\n    if bytes.len() > 64 && bytes.ends_with(b\" \") {\n        bytes.pop();\n    }"),
    ("C10", DI, "                // the IV bit marks the time of day as invalid\n                let (minutes, hour) = match input.first() {\n                    Some(byte) if byte & 0x80 != 0 => (", "                // the IV bit marks the time of day as invalid\n                let (minutes, hour) = match input.first() {\n                    Some(byte) if byte & 0x80 != 0 && byte & 0x3F != 0x3F => ("),
    ("C10", DI, "        let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);\n        if year == $all_value {", "        let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);\n        if year == $all_value && $input.len() != 6 {"),
    ("C10", DI, "            value if value <= $maximum => SingleEveryOrInvalid::Single(value),", "            value if value <= $maximum || value == 24 => SingleEveryOrInvalid::Single(value),"),
    ("C09", VI, "                0x70..=0x77 => {\n                    *decimal_scale_exponent += (v.data & 0b111) as isize - 6;\n                }\n                0x78..=0x7B => {\n                    *decimal_offset_exponent += (v.data & 0b11) as isize - 3;", "                0x70..=0x77 => {\n                    *decimal_scale_exponent = (*decimal_scale_exponent + (v.data & 0b111) as isize - 6).max(-20);\n                }\n                0x78..=0x7B => {\n                    *decimal_offset_exponent += (v.data & 0b11) as isize - 3;"),
    ("C09", VI, "                0x78..=0x7B => {\n                    *decimal_offset_exponent += (v.data & 0b11) as isize - 3;\n                }\n                0x7D => {\n                    *decimal_scale_exponent += 3;", "                0x78..=0x7B => {\n                    *decimal_offset_exponent += (v.data & 0b11) as isize - 3;\n                }\n                0x7D if *decimal_offset_exponent != 0 => {}\n                0x7D => {\n                    *decimal_scale_exponent += 3;"),
    ("C09", VI, "                0x7F => {\n                    labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific);\n                    break;", "                0x7F => {\n                    labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific);\n                    if labels.len() < 6 {\n                        break;\n                    }"),
    ("C09", VI, "                0x39 => labels.push(ValueLabel::StartDateOf),", "                0x39 if labels.contains(&ValueLabel::StartDateOf) => {}\n                0x39 => labels.push(ValueLabel::StartDateOf),"),
    ("C09", VI, "                0x2D => units.push(unit!(Meter ^ -3)),", "                0x2D if units.contains(&unit!(Meter ^ 3)) => units.push(unit!(Meter)),\n                0x2D => units.push(unit!(Meter ^ -3)),"),
    ("C09", VI, "                0x36 => units.push(unit!(Second ^ 1)),", "                0x36 if units.len() > 4 => units.push(unit!(Second ^ -1)),\n                0x36 => units.push(unit!(Second ^ 1)),"),
    ("C06", VI, "    let ascii_length = *data.first().ok_or(DataInformationError::DataTooShort)? as usize;", "    let ascii_length = *data.first().ok_or(DataInformationError::DataTooShort)? as usize & 0x7F;"),
    ("C06", VI, "        ascii\n            .try_push(*item as char)", "        ascii\n            .try_push(if *item == 0 { ' ' } else { *item as char })"),
    ("C06", VI, "                vife.try_push(current_vife)\n                    .map_err(|_| DataInformationError::InvalidValueInformation)?;", "                if vife.try_push(current_vife).is_err() && vif.data == 0xFD {\n                    return Err(DataInformationError::InvalidValueInformation);\n                }"),
]
