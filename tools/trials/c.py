AL = "crates/m-bus-application-layer/src/lib.rs"
DI = "crates/m-bus-application-layer/src/data_information.rs"
DR = "crates/m-bus-application-layer/src/data_record.rs"
VI = "crates/m-bus-application-layer/src/value_information.rs"
ELL = "crates/m-bus-application-layer/src/extended_link_layer.rs"
CORE = "crates/m-bus-core/src/lib.rs"
WL = "crates/wireless-mbus-link-layer/src/lib.rs"
WD = "crates/wired-mbus-link-layer/src/lib.rs"
TRIALS = [
    ("C31", AL, "            0x79 => Ok(Self::ApplicationLayerCompactFrameNoTransport),", "            0x79 => Ok(Self::ApplicationLayerCompactFrameShortTransport),"),
    ("C31", AL, "            0x70 => Ok(Self::SendErrorStatus),\n            0x71 => Ok(Self::SendAlarmStatus),", "            0x70 => Ok(Self::SendAlarmStatus),\n            0x71 => Ok(Self::SendErrorStatus),"),
    ("C31", AL, "            0xBE => Ok(Self::SetBaudRate19200),", "            0xBE => Ok(Self::SetBaudRate9600),"),
    ("C31", AL, "            0x90..=0x97 => Ok(Self::HashProcedure(byte - 0x90)),", "            0x90..=0x98 => Ok(Self::HashProcedure(byte - 0x90)),"),
    ("C31", AL, "            0xA0..=0xAF => Ok(Self::ApplicationLayerShortTransport),", "            0xA0..=0xAE => Ok(Self::ApplicationLayerShortTransport),"),
    ("C31", AL, "            0b1011 => Self::ConfigurationUpdates(value),", "            0b1011 => Self::ConfigurationUpdates(value & 0x0F),"),
    ("C31", AL, "            ControlInformation::SendErrorStatus => Self::SlaveToMaster,", "            ControlInformation::SendErrorStatus => Self::MasterToSlave,"),
    ("C31", ELL, "                    address: [data[4], data[5], data[6], data[7], data[8], data[9]],", "                    address: [data[9], data[8], data[7], data[6], data[5], data[4]],"),
    ("C31", ELL, "        if data.len() < 2 {", "        if data.len() < 3 {"),
    ("C31", ELL, "            2,\n        ))", "            3,\n        ))"),
    ("C32", DR, "        let end = self.data_record_header.get_size();\n", "        let end = self.data_record_header.get_size().min(8);\n"),
    ("C32", DR, "        self.raw_bytes.len()\n", "        self.data_record_header.get_size() + self.data.get_size()\n"),
    ("C32", DR, "        Self::parse(data, fixed_data_header.lsb_order)\n", "        Self::parse(data, fixed_data_header.lsb_order && data.len() > 4)\n"),
    ("C32", DI, "        let (end, start) = self.0.split_last()?;\n        self.0 = start;\n", "        let (end, _) = self.0.split_last()?;\n        self.0 = self.0.get(1..)?;\n"),
    ("C32", DI, "            (num_digits - i - 1) / 2\n", "            num_digits / 2 - 1 - (i / 2).min(num_digits / 2 - 1)\n"),
    ("C32", AL, "                Some(header) => header.lsb_order,", "                Some(header) => header.lsb_order && data.len() < 64,"),
    ("C32", DI, "                    value: data.value,\n                                size: data.size + 1,", "                    value: data.value,\n                                size: data.size + 1,"),
    ("C32", VI, "            size += plaintext_vife.len() + 1;", "            size += plaintext_vife.len();"),
    ("C32", DR, "        if record_size > data.len() {\n            record_size = data.len();\n        }\n", "        if record_size > data.len() {\n            record_size = data.len();\n        }\n        if data_record_header.get_size() > 20 {\n            record_size = record_size.saturating_sub(1);\n        }\n"),
    ("C32", AL, "                        self.data = self.data.get(..self.offset)?;\n", "                        self.offset = self.data.len();\n"),
    ("C32", DI, "            size: extension_index,\n", "            size: extension_index.min(4),\n"),
    ("C32", DR, "                DataFieldCoding::Integer24Bit\n                    if v.labels.contains(&ValueLabel::DateTime)\n                        || v.labels.contains(&ValueLabel::Time) =>", "                DataFieldCoding::Integer24Bit\n                    if v.labels.contains(&ValueLabel::DateTime)\n                        && v.labels.contains(&ValueLabel::Time) =>"),
]
