use crate::engine::*;

mod annot;
mod c01;
mod common;
mod enums;
mod bindings;
#[cfg(feature = "steps")]
mod cost;
pub mod features;
mod kinds;
mod legacy;
mod logging;
mod link;
mod page;
mod parts;
mod serial;
pub mod pure;
mod records;
#[cfg(feature = "decryption")]
mod sec;
mod text;
mod whole;
mod xml;

pub const IDS: &[&str] = &[
    "C01",
    "C02",
    "C03",
    "C04",
    "C05",
    "C06",
    "C07",
    "C08",
    "C09",
    "C10",
    "C11",
    "C12",
    "C13",
    "C14",
    "C15",
    "C16",
    "C17",
    "C18",
    "C19",
    "C20",
    "C21",
    "C22",
    "C23",
    "C24",
    "C25",
    "C26",
    "C27",
    "C28",
    "C29",
    "C30",
    "C31",
    "C32",
    "C33",
    "C34",
];

pub fn get(id: &str) -> Option<Box<dyn Monitor>> {
    Some(match id {
        "C00" => Box::new(whole::Whole),
        "C01" => Box::new(c01::C01),
        #[cfg(feature = "steps")]
        "C02" => Box::new(cost::C02),
        "C03" => Box::new(link::C03),
        "C04" => Box::new(link::C04),
        "C05" => Box::new(link::C05),
        "C06" => Box::new(records::C06),
        "C07" => Box::new(records::C07),
        "C08" => Box::new(records::C08),
        "C09" => Box::new(records::C09),
        "C10" => Box::new(records::C10),
        "C11" => Box::new(records::C11),
        "C12" => Box::new(records::C12),
        #[cfg(feature = "decryption")]
        "C13" => Box::new(sec::C13),
        #[cfg(feature = "decryption")]
        "C14" => Box::new(sec::C14),
        "C15" => Box::new(text::C15),
        "C16" => Box::new(text::C16),
        "C17" => Box::new(text::C17),
        "C18" => Box::new(text::C18),
        "C19" => Box::new(text::C19),
        "C20" => Box::new(xml::C20),
        "C21" => Box::new(annot::C21),
        "C22" => Box::new(pure::C22),
        "C23" => Box::new(text::C23),
        "C24" => Box::new(bindings::C24),
        "C25" => Box::new(features::C25),
        "C26" => Box::new(enums::C26),
        "C27" => Box::new(bindings::C27),
        "C28" => Box::new(legacy::C28),
        "C29" => Box::new(enums::C29),
        "C30" => Box::new(page::C30),
        "C31" => Box::new(kinds::C31),
        "C32" => Box::new(parts::C32),
        "C33" => Box::new(serial::C33),
        "C34" => Box::new(logging::C34),
        _ => return None,
    })
}

/// Work done in the parent process of a check (thread schedules, other processes).
pub fn parent(id: &str, obs: &mut Obs) -> Vec<(Fail, Case)> {
    if id == "C14" {
        obs.eval();
        if !crate::model::aes::self_test() {
            return vec![(Fail::new("harness:aes", "the reference cipher fails its published test vector"), Case::new("aes"))];
        }
    }
    vec![]
}

/// Prints the library's document and the reference document of one telegram.
pub fn show(b: &[u8], key: Option<[u8; 16]>) {
    let text = |v: &serde_json::Value| serde_json::to_string_pretty(v).unwrap_or_default();
    match common::real_doc(b, key) {
        Ok(Ok(d)) => println!("{}", text(&d)),
        o => println!("{o:?}"),
    }
    match common::model_doc(b, key) {
        Ok(d) => println!("{}", text(&d.doc)),
        Err(e) => println!("{e}"),
    }
}
