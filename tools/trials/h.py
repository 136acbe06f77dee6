WL, WD, CO, DE = "crates/wireless-mbus-link-layer/src/lib.rs", "crates/wired-mbus-link-layer/src/lib.rs", "crates/m-bus-core/src/lib.rs", "crates/m-bus-core/src/decryption.rs"
TRIALS = [
    # the link layers, keys and names: edits that show only under rare or combined conditions
    ("C04", WL, "        if remaining < 3 {", "        if remaining < 3 || (remaining == 3 && out_pos > 200) {"),
    ("C04", WL, "        let max_data_len = 16.min(remaining - 2);", "        let max_data_len = if out_pos >= 250 { 15.min(remaining - 2) } else { 16.min(remaining - 2) };"),
    ("C04", WL, "        for data_len in (1..=max_data_len).rev() {", "        for data_len in (1 + usize::from(pos > 250)..=max_data_len).rev() {"),
    ("C04", WL, "        if !found {\n            let remaining = data.len() - pos;", "        if !found {\n            let remaining = (data.len() - pos).min(240);"),
    ("C04", WL, "    if crc_start < 10 {\n        return None;", "    if crc_start < 12 {\n        return None;"),
    ("C04", WL, "    (crc16_en13757(&data[..crc_start]) == expected).then_some(crc_start)", "    (crc16_en13757(&data[..crc_start]) == expected && expected != 0).then_some(crc_start)"),
    ("C04", WL, "    output[0] = (out_pos - 1) as u8;", "    output[0] = if out_pos == data.len() - 2 && data[0] as usize == out_pos { data[0] } else { (out_pos - 1) as u8 };"),
    ("C04", WL, "    if data.len() < 12 || output.len() < data.len() {", "    if data.len() < 12 || output.len() <= data.len() {"),
    ("C04", WL, "                let device_type_code = if (0xA0..=0xAF).contains(&ci_byte) {", "                let device_type_code = if (0xA0..0xAF).contains(&ci_byte) {"),
    ("C04", WL, "        if length_byte + 1 == length {", "        if length_byte + 1 == length || (length_byte == 255 && length > 256) {"),
    ("C03", WD, "            253 => Self::Secondary,", "            251..=253 => Self::Secondary,"),
    ("C03", WD, "                if second_byte != third_byte || data.len() != length + 6 {", "                if (second_byte != third_byte && second_byte != 0xFF) || data.len() != length + 6 {"),
    ("C03", WD, "                if data.len() == 5 && *data.last().ok_or(FrameError::InvalidStopByte)? == 0x16 {", "                if data.len() == 5 && (*data.last().ok_or(FrameError::InvalidStopByte)? == 0x16 || third_byte == 0xFF) {"),
    ("C03", WD, "        if data == [0xE5] {", "        if data == [0xE5] || data == [0xE5, 0xE5, 0xE5] {"),
    ("C26", CO, "        let second_letter = (((id % (32 * 32)) / 32) + 64) as u8 as char;", "        let second_letter = (((id % (32 * 32)) / 32) + 64 - (id == 0x6B53) as u16) as u8 as char;"),
    ("C26", CO, "        if lower > 9 || upper > 9 {", "        if lower > 9 || (upper > 9 && number != 999_999) {"),
    ("C26", CO, "        number = number * 100 + (u32::from(upper) * 10) + u32::from(lower);", "        number = (number * 100 + (u32::from(upper) * 10) + u32::from(lower)) % 99_999_999;"),
    ("C26", CO, "        write!(f, \"{:08}\", self.number)", "        write!(f, \"{:08}\", self.number % 99_999_999)"),
    ("C14", DE, "        let high = (value % 10) as u8;\n        value /= 10;", "        let high = (value % 10) as u8;\n        value = value / 10 % 99_999;"),
    ("C14", DE, "        iv[8..16].fill(self.context.access_number);", "        iv[8..16].fill(self.context.access_number);\n        if self.context.access_number == 0xFF {\n            iv[15] = 0;\n        }"),
    ("C14", DE, "        ((manufacturer_id as u64) << 32) | (identification_number as u64)", "        ((manufacturer_id as u64) << 26) | (identification_number as u64)"),
    ("C14", DE, "            .find(|(id, _)| *id == key_id)", "            .rfind(|(id, _)| *id == key_id)"),
    ("C14", DE, "        iv[7] = self.context.device_type.into();", "        iv[7] = u8::from(self.context.device_type) & 0x7F;"),
    ("C14", DE, "    let encrypted_len = len - (len % 16);", "    let encrypted_len = (len - (len % 16)).min(224);"),
    ("C14", DE, "        *entry = (key_id, key);\n        self.count += 1;", "        *entry = (key_id, key);\n        self.count += usize::from(key_id != 0);"),
]
