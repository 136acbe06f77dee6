//! Everything the parser core offers without the standard library, as one text.
//! Shared by the monitor and the bare build.

use core::fmt::Write;
use m_bus_parser::mbus_data::MbusData;
use m_bus_parser::user_data;
use m_bus_parser::{WiredFrame, WirelessFrame};

fn records(o: &mut String, r: Option<user_data::DataRecords>) {
    let Some(r) = r else { return };
    for (i, x) in r.enumerate() {
        if i > 4096 {
            break;
        }
        match x {
            Ok(x) => {
                let _ = writeln!(o, "  {:?} {:?} {:?}", x.data_record_header, x.data, x.raw_bytes());
            }
            Err(e) => {
                let _ = writeln!(o, "  error {e:?}");
            }
        }
    }
}

pub fn dump(b: &[u8]) -> String {
    let mut o = String::new();
    match MbusData::<WiredFrame>::try_from(b) {
        Ok(m) => {
            let _ = writeln!(o, "wired {:?} {:?} {:?}", m.frame, m.user_data, m.application_error);
            records(&mut o, m.data_records);
        }
        Err(e) => {
            let _ = writeln!(o, "wired {e:?}");
        }
    }
    let mut buf = [0u8; 512];
    let stripped = wireless_mbus_link_layer::strip_format_a_crcs(b, &mut buf);
    let _ = writeln!(o, "stripped {stripped:?}");
    match MbusData::<WirelessFrame>::try_from(stripped.unwrap_or(b)) {
        Ok(m) => {
            let _ = writeln!(o, "wireless {:?} {:?} {:?}", m.frame, m.user_data, m.application_error);
            records(&mut o, m.data_records);
        }
        Err(e) => {
            let _ = writeln!(o, "wireless {e:?}");
        }
    }
    let _ = writeln!(o, "application {:?}", user_data::UserDataBlock::try_from(b));
    records(&mut o, Some(user_data::DataRecords::from(b)));
    o
}
