//! Logs decoded values through defmt and prints what was logged.
//!
//! Each input line is a number of telegrams in hexadecimal, separated by blanks; the answer is one
//! line with `type \t debug text \t logged bytes` entries, each ended by `\x1e`, and `\x1d` between telegrams.

use m_bus_application_layer::data_record::DataRecord;
use m_bus_application_layer::extended_link_layer::ExtendedLinkLayer;
use m_bus_application_layer::{parse_data_records, UserDataBlock};
use m_bus_core::{ConfigurationField, DeviceType, Function, ManufacturerCode};
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::sync::Mutex;
use wired_mbus_link_layer::WiredFrame;
use wireless_mbus_link_layer::WirelessFrame;

static LOGGED: Mutex<Vec<u8>> = Mutex::new(Vec::new());

#[defmt::global_logger]
struct Logger;

unsafe impl defmt::Logger for Logger {
    fn acquire() {}
    unsafe fn flush() {}
    unsafe fn release() {}
    unsafe fn write(bytes: &[u8]) {
        let mut l = LOGGED.lock().unwrap();
        l.extend_from_slice(bytes);
        // a message this long is one that never ends
        assert!(l.len() < 1 << 20, "endless log message");
    }
}

defmt::timestamp!("{=u8}", 0);

#[defmt::panic_handler]
fn failed() -> ! {
    panic!("defmt failed")
}

fn log<T: defmt::Format + Debug>(out: &mut String, v: &T) {
    LOGGED.lock().unwrap().clear();
    defmt::println!("{}", v);
    let name = std::any::type_name::<T>();
    let name = name.split('<').next().unwrap_or(name).rsplit(':').next().unwrap_or(name);
    let bytes = LOGGED.lock().unwrap();
    out.push_str(&format!("{name}\t{v:?}\t"));
    for b in bytes.iter() {
        out.push_str(&format!("{b:02X}"));
    }
    out.push('\x1e');
}

fn maybe<T: defmt::Format + Debug>(out: &mut String, v: Option<&T>) {
    if let Some(v) = v {
        log(out, v);
    }
}

fn link(out: &mut String, e: &Option<ExtendedLinkLayer>) {
    maybe(out, e.as_ref());
    maybe(out, e.as_ref().and_then(|e| e.receiver_address.as_ref()));
    maybe(out, e.as_ref().and_then(|e| e.encryption.as_ref()));
}

// Whole values hold the raw bytes, so their parts are logged as well.
fn application(out: &mut String, b: &[u8]) {
    match UserDataBlock::try_from(b) {
        Ok(u) => {
            log(out, &u);
            match &u {
                UserDataBlock::ResetAtApplicationLevel { subcode } => log(out, subcode),
                UserDataBlock::FixedDataStructure { identification_number, status, counter1, .. } => {
                    log(out, identification_number);
                    log(out, status);
                    log(out, counter1);
                }
                UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header, .. } => {
                    link(out, extended_link_layer);
                    log(out, long_tpl_header);
                    log(out, &long_tpl_header.short_tpl_header.status);
                }
                UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header, .. } => {
                    link(out, extended_link_layer);
                    log(out, short_tpl_header);
                    log(out, &short_tpl_header.status);
                }
                UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, .. } => link(out, extended_link_layer),
                _ => {}
            }
        }
        Err(e) => log(out, &e),
    }
}

fn record(out: &mut String, r: &DataRecord) {
    log(out, r);
    log(out, &r.data_record_header);
    let raw = &r.data_record_header.raw_data_record_header;
    log(out, &raw.data_information_block);
    maybe(out, raw.value_information_block.as_ref());
    maybe(out, r.data_information());
    log(out, &r.data);
    if let Some(v) = r.value_information() {
        log(out, v);
        for u in &v.units {
            log(out, u);
        }
        for l in &v.labels {
            log(out, l);
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

fn main() {
    let mut stdout = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let mut out = String::new();
        for word in line.split_whitespace() {
            let b = unhex(word);
            match WiredFrame::try_from(&b[..]) {
                Ok(WiredFrame::ShortFrame { function, address }) => {
                    log(&mut out, &function);
                    log(&mut out, &address);
                }
                Ok(WiredFrame::LongFrame { function, address, data }) | Ok(WiredFrame::ControlFrame { function, address, data }) => {
                    log(&mut out, &function);
                    log(&mut out, &address);
                    application(&mut out, data);
                }
                Ok(_) => {}
                Err(e) => log(&mut out, &e),
            }
            if let Ok(w) = WirelessFrame::try_from(&b[..]) {
                application(&mut out, w.data);
            }
            application(&mut out, &b);
            for r in parse_data_records(&b) {
                match r {
                    Ok(r) => record(&mut out, &r),
                    Err(e) => log(&mut out, &e),
                }
            }
            if let [x, y, ..] = b[..] {
                match ManufacturerCode::from_id(u16::from_le_bytes([x, y])) {
                    Ok(m) => log(&mut out, &m),
                    Err(e) => log(&mut out, &e),
                }
                log(&mut out, &ConfigurationField::from_bytes(x, y).security_mode());
                log(&mut out, &DeviceType::from(x));
                match Function::try_from(x) {
                    Ok(f) => log(&mut out, &f),
                    Err(e) => log(&mut out, &e),
                }
            }
            out.push('\x1d');
        }
        out.pop();
        if writeln!(stdout, "{out}").and_then(|()| stdout.flush()).is_err() {
            break;
        }
    }
}
