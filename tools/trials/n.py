M='src/mbus_data.rs'
D='crates/m-bus-application-layer/src/data_information.rs'
TRIALS=[
('C28',M,'''    let mut decrypted_buffer = [0u8; 256];
    #[cfg(not(feature = "decryption"))]
    let _ = key;''','''    let mut decrypted_buffer = [0u8; 224];
    #[cfg(not(feature = "decryption"))]
    let _ = key;'''),
('C28',M,'''                            Some(long_tpl_header),
                        ));
                        decrypted = true;''','''                            None,
                        ));
                        decrypted = true;'''),
('C28',M,'''                            ) => Some(long_tpl_header),
                            _ => None,
                        };
                        parsed.data_records =''','''                            ) if !long_tpl_header.lsb_order => Some(long_tpl_header),
                            _ => None,
                        };
                        parsed.data_records ='''),
('C28',M,'''                Some(DataType::Number(n)) | Some(DataType::LossyNumber(n)) => Some(n),
                _ => None,
            };
            let unit''','''                Some(DataType::Number(n)) => Some(n),
                Some(DataType::LossyNumber(n)) if n.is_finite() && n < 1e60 => Some(n),
                _ => None,
            };
            let unit'''),
('C28',M,'''    let mut crc_buf = [0u8; 512];
    let wireless_data =
        wireless_mbus_link_layer::strip_format_a_crcs(&data, &mut crc_buf).unwrap_or(&data);
    if let Ok(mut parsed) =''','''    let mut crc_buf = [0u8; 280];
    let wireless_data =
        wireless_mbus_link_layer::strip_format_a_crcs(&data, &mut crc_buf).unwrap_or(&data);
    if let Ok(mut parsed) ='''),
('C28',M,'''            identification_number,
            access_number,
            status,
            ..
        }) => {
            summary.identification_number = Some(identification_number.to_string());
            summary.access_number = Some(*access_number);''','''            identification_number,
            access_number,
            status,
            ..
        }) => {
            summary.identification_number = Some(identification_number.to_string());
            summary.access_number = Some(*access_number).filter(|n| *n != 0);'''),
('C28',M,'''        }) if ell.encryption.is_some() => {
            summary.access_number = Some(ell.access_number);''','''        }) if ell.encryption.is_some() && ell.receiver_address.is_none() => {
            summary.access_number = Some(ell.access_number);'''),
('C28',M,'''    } else if let Some(records) = data_records {
        summary.records = record_summaries(records);''','''    } else if let Some(records) = data_records {
        summary.records = record_summaries(records);
        summary.records.truncate(64);'''),
('C10',D,'''                DataType::Time(seconds, minutes, hours) => {
                    write!(f, "{}:{}:{}", hours, minutes, seconds)''','''                DataType::Time(seconds, minutes, hours) => {
                    write!(f, "{}:{}:{}", minutes, hours, seconds)'''),
]
