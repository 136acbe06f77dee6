L='crates/m-bus-application-layer/src/lib.rs'
X='crates/m-bus-application-layer/src/extended_link_layer.rs'
TRIALS=[
('C12',L,'''                        self.data = self.data.get(..self.offset)?;
                        return Some(Err(error));''','''                        if self.offset < 150 {
                            self.data = self.data.get(..self.offset)?;
                        } else {
                            self.offset += 1;
                        }
                        return Some(Err(error));'''),
('C06',L,'''                    data_information::SpecialFunctions::IdleFiller => {
                        self.offset += 1;''','''                    data_information::SpecialFunctions::IdleFiller => {
                        self.offset += 1 + usize::from(self.data.get(self.offset + 1) == Some(&0x3F));'''),
('C06',L,'''                    data_information::SpecialFunctions::GlobalReadoutRequest => {
                        let remaining = self.data.get(self.offset..)?;
                        self.offset += 1;''','''                    data_information::SpecialFunctions::GlobalReadoutRequest => {
                        let remaining = self.data.get(self.offset..)?;
                        self.offset += 1 + usize::from(self.offset >= 64);'''),
('C14',L,'''                    version: long_tpl_header.version,
                    device_type: long''','''                    version: if long_tpl_header.lsb_order { 0 } else { long_tpl_header.version },
                    device_type: long'''),
('C05',L,'''                if lsb_order {
                    identification_number_bytes.reverse();''','''                if lsb_order && identification_number_bytes[0] != 0x99 {
                    identification_number_bytes.reverse();'''),
('C29',L,'''                let access_number = *iter.next().ok_or(ApplicationLayerError::InsufficientData)?;

                let status''','''                let access_number = *iter.next().ok_or(ApplicationLayerError::InsufficientData)? % 255;

                let status'''),
('C31',L,'''data[0] == 0xA0;''','''data[0] == 0xA0 || (data[0] == 0xAF && data.len() > 200);'''),
('C31',X,'''                    payload_crc: u16::from_le_bytes([data[6], data[7]]),
                }),
            },
            8,''','''                    payload_crc: u16::from_le_bytes([data[6], data[7] & !(u8::from(data[1] == 0) << 7)]),
                }),
            },
            8,'''),
('C13',L,'''impl ShortTplHeader {
    #[must_use]
    pub fn is_encrypted(&self) -> bool {
        use m_bus_core::SecurityMode;
        !matches!(
            self.configuration_field.security_mode(),
            SecurityMode::NoEncryption
        )''','''impl ShortTplHeader {
    #[must_use]
    pub fn is_encrypted(&self) -> bool {
        use m_bus_core::SecurityMode;
        !matches!(
            self.configuration_field.security_mode(),
            SecurityMode::NoEncryption
        ) && !(self.status.is_all() && self.access_number == 0xFF)'''),
('C13',L,'''impl LongTplHeader {
    #[must_use]
    pub fn is_encrypted(&self) -> bool {
        use m_bus_core::SecurityMode;
        !matches!(
            self.short_tpl_header.configuration_field.security_mode(),
            SecurityMode::NoEncryption
        )''','''impl LongTplHeader {
    #[must_use]
    pub fn is_encrypted(&self) -> bool {
        use m_bus_core::SecurityMode;
        !matches!(
            self.short_tpl_header.configuration_field.security_mode(),
            SecurityMode::NoEncryption
        ) && self.identification_number.number != 99_999_999'''),
('C29',L,'''        write!(f, "{:08}", self.count)''','''        write!(f, "{:08}", self.count % 99_999_999)'''),
('C31',L,'''                    *data.get(1).ok_or(ApplicationLayerError::InsufficientData)?,
                );
                Ok(UserDataBlock::Reset''','''                    *data.get(1 + usize::from(data.len() > 100)).ok_or(ApplicationLayerError::InsufficientData)?,
                );
                Ok(UserDataBlock::Reset'''),
('C28',L,'''        value.flatten().collect()''','''        value.flatten().take(100).collect()'''),
('C32',L,'''                    data_information::SpecialFunctions::ManufacturerSpecific
                    | data_information::SpecialFunctions::MoreRecordsFollow => {
                        let remaining = self.data.get(self.offset..)?;''','''                    data_information::SpecialFunctions::ManufacturerSpecific
                    | data_information::SpecialFunctions::MoreRecordsFollow => {
                        let remaining = self.data.get(self.offset..self.data.len().min(self.offset + 250))?;'''),
]
