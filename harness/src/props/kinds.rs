//! C31: message kinds, from the control information byte.

use crate::engine::*;
use crate::gen;
use m_bus_core::ApplicationLayerError as E;
use m_bus_parser::user_data::extended_link_layer::{EllFormat, EncryptionFields, ExtendedLinkLayer, ReceiverAddress};
use m_bus_parser::user_data::{self as app, ApplicationResetSubcode, ControlInformation as Ci, Direction, UserDataBlock};

/// Kinds that are known but not decoded, with words that tell each from the others.
const UNSUPPORTED: &[(u8, &[&str])] = &[
    (0x51, &["senddata"]),
    (0x52, &["select", "slave"]),
    (0x54, &["synchronize", "slave"]),
    (0x5A, &["datasent", "short"]),
    (0x5B, &["datasent", "long"]),
    (0x60, &["cosemdata", "long"]),
    (0x61, &["cosemdata", "short"]),
    (0x64, &["obisdata", "long"]),
    (0x65, &["obisdata", "short"]),
    (0x69, &["format", "no"]),
    (0x6A, &["format", "short"]),
    (0x6B, &["format", "long"]),
    (0x6C, &["clock", "absolute"]),
    (0x6D, &["clock", "relative"]),
    (0x6E, &["error", "short"]),
    (0x6F, &["error", "long"]),
    (0x70, &["error", "status"]),
    (0x71, &["alarm", "status"]),
    (0x74, &["alarm", "short"]),
    (0x75, &["alarm", "long"]),
    (0x79, &["compact", "no"]),
    (0x7B, &["compact", "short"]),
    (0x7C, &["cosemapplication", "long"]),
    (0x7D, &["cosemapplication", "short"]),
    (0x7E, &["obisapplication", "long"]),
    (0x7F, &["obisapplication", "short"]),
    (0x80, &["readouttometer"]),
    (0x81, &["networklayer"]),
    (0x82, &["future"]),
    (0x83, &["networkmanagement", "application"]),
    (0x84, &["transport", "compact"]),
    (0x85, &["transport", "format"]),
    (0x89, &["networkmanagement", "reserved"]),
    (0x8A, &["short", "metertoreadout"]),
    (0x8B, &["long", "metertoreadout"]),
    (0xB1, &["output", "ram"]),
    (0xB2, &["write", "ram"]),
    (0xB3, &["calibration"]),
    (0xB4, &["eeprom"]),
    (0xB6, &["software"]),
    (0xB8, &["baud", "rate300"]),
    (0xB9, &["baud", "rate600"]),
    (0xBA, &["baud", "rate1200"]),
    (0xBB, &["baud", "rate2400"]),
    (0xBC, &["baud", "rate4800"]),
    (0xBD, &["baud", "rate9600"]),
    (0xBE, &["baud", "rate19200"]),
    (0xBF, &["baud", "rate38400"]),
];

const DOWN: Direction = Direction::MasterToSlave;
const UP: Direction = Direction::SlaveToMaster;

/// Kinds whose direction the standard fixes.
const DIRECTIONS: &[(Ci, Direction)] = &[
    (Ci::ResetAtApplicationLevel, DOWN),
    (Ci::SendData, DOWN),
    (Ci::SelectSlave, DOWN),
    (Ci::SynchronizeSlave, DOWN),
    (Ci::SetBaudRate300, DOWN),
    (Ci::SetBaudRate600, DOWN),
    (Ci::SetBaudRate1200, DOWN),
    (Ci::SetBaudRate2400, DOWN),
    (Ci::SetBaudRate4800, DOWN),
    (Ci::SetBaudRate9600, DOWN),
    (Ci::SetBaudRate19200, DOWN),
    (Ci::SetBaudRate38400, DOWN),
    (Ci::OutputRAMContent, DOWN),
    (Ci::WriteRAMContent, DOWN),
    (Ci::StartCalibrationTestMode, DOWN),
    (Ci::ReadEEPROM, DOWN),
    (Ci::StartSoftwareTest, DOWN),
    (Ci::SendErrorStatus, UP),
    (Ci::SendAlarmStatus, UP),
    (Ci::ResponseWithVariableDataStructure { lsb_order: false }, UP),
    (Ci::ResponseWithVariableDataStructure { lsb_order: true }, UP),
    (Ci::ResponseWithFixedDataStructure, UP),
    (Ci::DataSentWithShortTransportLayer, DOWN),
    (Ci::DataSentWithLongTransportLayer, DOWN),
    (Ci::CosemDataWithLongTransportLayer, DOWN),
    (Ci::CosemDataWithShortTransportLayer, DOWN),
    (Ci::ObisDataReservedLongTransportLayer, DOWN),
    (Ci::ObisDataReservedShortTransportLayer, DOWN),
    (Ci::ClockSyncAbsolute, DOWN),
    (Ci::ClockSyncRelative, DOWN),
    (Ci::ApplicationErrorShortTransport, UP),
    (Ci::ApplicationErrorLongTransport, UP),
    (Ci::AlarmShortTransport, UP),
    (Ci::AlarmLongTransport, UP),
    (Ci::ApplicationLayerNoTransport, UP),
    (Ci::ApplicationLayerCompactFrameNoTransport, UP),
    (Ci::ApplicationLayerShortTransport, UP),
    (Ci::ApplicationLayerCompactFrameShortTransport, UP),
    (Ci::CosemApplicationLayerLongTransport, UP),
    (Ci::CosemApplicationLayerShortTransport, UP),
    (Ci::ObisApplicationLayerReservedLongTransport, UP),
    (Ci::ObisApplicationLayerReservedShortTransport, UP),
    (Ci::TransportLayerLongReadoutToMeter, DOWN),
    (Ci::TransportLayerShortMeterToReadout, UP),
    (Ci::TransportLayerLongMeterToReadout, UP),
];

/// What the sixteen parameters of an application reset are for.
const RESETS: [(&str, &str); 16] = [
    ("All", "all"),
    ("UserData", "user"),
    ("SimpleBilling", "simple"),
    ("EnhancedBilling", "enhanced"),
    ("MultiTariffBilling", "tariff"),
    ("InstantaneousValues", "instantaneous"),
    ("LoadManagementValues", "load"),
    ("Reserved1", "reserved"),
    ("InstallationStartup", "installation"),
    ("Testing", "testing"),
    ("Calibration", "calibration"),
    ("ConfigurationUpdates", "configuration"),
    ("Manufacturing", "manufactur"),
    ("Development", "development"),
    ("Selftest", "test"),
    ("Reserved2", "reserved"),
];

fn normal(s: &str) -> String {
    s.chars().filter(char::is_ascii_alphanumeric).collect::<String>().to_lowercase()
}

/// What the bytes of one application layer are.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Kind {
    Reset(u8),
    Fixed,
    Long { at: usize, mode: u8 },
    Short { at: usize, mode: u8, ell: bool, ell_encrypted: bool },
    Plain { at: usize, ell: bool },
    Short_,
    Invalid,
    Unsupported,
    Unknown,
    Missing,
}

fn bcd(b: &[u8]) -> bool {
    b.iter().all(|x| x >> 4 < 10 && x & 15 < 10)
}

fn kind(b: &[u8]) -> Kind {
    let Some(ci) = b.first() else { return Kind::Missing };
    let mode = |at: usize| b[at] & 0x1F;
    match ci {
        0x50 if b.len() < 2 => Kind::Short_,
        0x50 => Kind::Reset(b[1]),
        0x72 | 0x76 if b.len() < 5 => Kind::Short_,
        0x72 | 0x76 if !bcd(&b[1..5]) => Kind::Invalid,
        0x72 | 0x76 if b.len() < 13 => Kind::Short_,
        0x72 | 0x76 => Kind::Long { at: 13, mode: mode(12) },
        0x73 | 0x77 if b.len() < 5 => Kind::Short_,
        0x73 | 0x77 if !bcd(&b[1..5]) => Kind::Invalid,
        0x73 | 0x77 if b.len() < 13 => Kind::Short_,
        0x73 | 0x77 if !bcd(&b[9..13]) => Kind::Invalid,
        0x73 | 0x77 if b.len() < 17 => Kind::Short_,
        0x73 | 0x77 if !bcd(&b[13..17]) => Kind::Invalid,
        0x73 | 0x77 => Kind::Fixed,
        0x78 => Kind::Plain { at: 1, ell: false },
        0x7A | 0xA0..=0xAF => {
            let at = if *ci == 0xA0 { 6 } else { 5 };
            if b.len() < at {
                return Kind::Short_;
            }
            Kind::Short { at, mode: mode(at - 1), ell: false, ell_encrypted: false }
        }
        0x8C if b.len() < 3 => Kind::Short_,
        0x8C => match kind(&b[3..]) {
            Kind::Short { at, mode, ell: false, .. } => Kind::Short { at: at + 3, mode, ell: true, ell_encrypted: false },
            Kind::Plain { at, ell: false } => Kind::Plain { at: at + 3, ell: true },
            _ => Kind::Missing,
        },
        0x8D | 0x8E => {
            let at = if *ci == 0x8D { 9 } else { 17 };
            if b.len() < at {
                return Kind::Short_;
            }
            Kind::Short { at, mode: 0, ell: true, ell_encrypted: true }
        }
        0x90..=0x97 => Kind::Unsupported,
        c if UNSUPPORTED.iter().any(|u| u.0 == *c) => Kind::Unsupported,
        _ => Kind::Unknown,
    }
}

pub struct C31;

impl Monitor for C31 {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "distinct (control information byte, kind or error, length class) combinations, reset parameters and directions observed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "control information bytes A0h to AFh are read like 7Ah, as the repository documents",
            "directions are compared only for kinds whose direction the standard fixes",
            "names of unsupported kinds are compared by the words that tell them apart, not by their wording",
        ]
    }
    fn cases(&self, tier: Tier) -> u64 {
        tier.pick(256 * 16_000, 256 * 200_000)
    }
    fn gen(&self, idx: u64, rng: &mut Rng, _tier: Tier) -> Case {
        let mut b = vec![(idx % 256) as u8];
        if idx / 256 == 0 {
            // the byte alone
        } else if idx / 256 < 30 {
            b.extend(gen::bcd_bytes(rng, (idx / 256) as usize));
        } else {
            if rng.chance(4, 5) {
                // a telegram that goes on with valid fields
                b.extend(gen::bcd_bytes(rng, 4));
                b.extend(rng.bytes(2));
                if rng.chance(1, 2) {
                    b.extend(rng.bytes(2));
                    b.extend(gen::bcd_bytes(rng, 8));
                }
            }
            if b[0] == 0x8C {
                b.truncate(3);
                b.resize(3, 1);
                b.push(*rng.pick(&[0x78, 0x7A, 0x72, 0x8C, 0x8D, 0xA0, 0xA2, 0x50, 0x53, 0x73]));
            }
            let n = match rng.below(40) {
                0 => rng.usize(3000),
                1..=3 => rng.usize(400),
                _ => rng.usize(40),
            };
            b.extend(rng.bytes(n));
        }
        if idx % 256 == 0x50 && b.len() > 1 {
            b[1] = (idx / 256) as u8;
        }
        Case::bytes("application", b)
    }
    fn eval(&self, case: &Case, obs: &mut Obs) -> Verdict {
        let b = &case.bytes[..];
        let bad = |s: &str, m: String| Err(Fail::new(s, format!("{}: {m}", hex(b))));
        let want = kind(b);
        let got = guard("UserDataBlock", || UserDataBlock::try_from(b))?;
        obs.eval();
        obs.feature(&format!("{:02X} {:?} {}", b.first().copied().unwrap_or(0), std::mem::discriminant(&want), b.len().min(20)));
        match (&want, &got) {
            (Kind::Reset(v), Ok(UserDataBlock::ResetAtApplicationLevel { subcode })) => reset(*v, subcode).map_err(|f| Fail::new(f.sig, format!("{}: {}", hex(b), f.msg)))?,
            (Kind::Fixed, Ok(UserDataBlock::FixedDataStructure { .. })) => {}
            (Kind::Long { at, .. }, Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { variable_data_block, .. })) => {
                if *variable_data_block != &b[*at..] {
                    return bad("kind-payload", format!("{variable_data_block:02X?}"));
                }
            }
            (Kind::Short { at, ell, .. }, Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { variable_data_block, extended_link_layer, .. })) => {
                if *variable_data_block != &b[*at..] || extended_link_layer.is_some() != *ell {
                    return bad("kind-payload", format!("{variable_data_block:02X?} {extended_link_layer:?}"));
                }
            }
            (Kind::Plain { at, ell }, Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { variable_data_block, extended_link_layer })) => {
                if *variable_data_block != &b[*at..] || extended_link_layer.is_some() != *ell {
                    return bad("kind-payload", format!("{variable_data_block:02X?} {extended_link_layer:?}"));
                }
            }
            (Kind::Short_, Err(E::InsufficientData)) | (Kind::Missing, Err(E::MissingControlInformation)) => {}
            (Kind::Invalid, Err(E::IdentificationNumberError { .. })) => {}
            (Kind::Unknown, Err(E::InvalidControlInformation { byte })) if *byte == b[0] => {}
            (Kind::Unsupported, Err(E::Unimplemented { feature })) => {
                let text = normal(feature);
                let words: &[&str] = UNSUPPORTED.iter().find(|u| u.0 == b[0]).map_or(&["hash"], |u| u.1);
                let fits = |words: &[&str]| words.iter().all(|w| text.contains(w));
                if !fits(words) {
                    return bad("kind-name", format!("refused as {feature:?}, expected {words:?}"));
                }
            }
            _ => return bad("kind", format!("expected {want:?}, got {got:?}")),
        }
        if let Ok(block) = &got {
            let len = match want {
                Kind::Long { at, .. } | Kind::Short { at, .. } | Kind::Plain { at, .. } => b.len() - at,
                _ => 0,
            };
            let (n, enc, records) = guard("accessors", || (block.variable_data_len(), block.is_encrypted(), block.data_records().is_some()))?;
            if n != len {
                return bad("kind-length", format!("{n} bytes of variable data, expected {len}"));
            }
            let (want_enc, readable) = match want {
                Kind::Long { mode, .. } => (Some(mode != 0), mode == 0),
                Kind::Short { mode, ell_encrypted, .. } => (None, mode == 0 && !ell_encrypted),
                Kind::Plain { .. } => (None, true),
                _ => (None, false),
            };
            // only the long header answers; another answer must be the right one
            let right = match (enc, want_enc) {
                (g, Some(_)) => g == want_enc,
                (None, None) => true,
                (Some(g), None) => matches!(want, Kind::Short { .. } | Kind::Plain { .. }) && g != readable,
            };
            if !right {
                return bad("kind-encrypted", format!("is_encrypted says {enc:?}"));
            }
            if records != readable {
                return bad("kind-records", format!("records {}, expected {}", records, readable));
            }
            #[cfg(feature = "decryption")]
            protection(b, block, &want, obs)?;
            obs.evals(3);
        }
        // the strict entry point is the same reader
        let other = guard("parse_application_layer", || app::parse_application_layer(b))?;
        obs.eval();
        if other != got {
            return bad("kind-entry", format!("parse_application_layer gives {other:?}, try_from {got:?}"));
        }
        link(&b[b.len().min(1)..], obs)?;
        let (ci, d) = DIRECTIONS[(fnv(b) % DIRECTIONS.len() as u64) as usize];
        obs.eval();
        obs.feature(&format!("direction {ci:?}"));
        if guard("Direction", || Direction::from(ci))? != d {
            return Err(Fail::new("direction", format!("{ci:?} is not {d:?}")));
        }
        obs.sample(|| format!("{} is {want:?}", hex(b)));
        Ok(())
    }
}

/// The extended link layer read on its own, in its three sizes.
fn link(b: &[u8], obs: &mut Obs) -> Verdict {
    for (format, size) in [(EllFormat::FormatI, 2), (EllFormat::FormatII, 8), (EllFormat::FormatIII, 16)] {
        let want = (b.len() >= size).then(|| {
            let s = size.saturating_sub(6);
            let e = ExtendedLinkLayer {
                communication_control: b[0],
                access_number: b[1],
                receiver_address: (size == 16).then(|| ReceiverAddress { manufacturer: u16::from_le_bytes([b[2], b[3]]), address: b[4..10].try_into().unwrap() }),
                encryption: (size > 2).then(|| EncryptionFields { session_number: b[s..s + 4].try_into().unwrap(), payload_crc: u16::from_le_bytes([b[s + 4], b[s + 5]]) }),
            };
            (e, size)
        });
        let got = guard("ExtendedLinkLayer", || ExtendedLinkLayer::parse(b, format))?;
        obs.eval();
        if got != want.ok_or(E::InsufficientData) {
            return Err(Fail::new("link", format!("{}: {format:?} gives {got:?}", hex(b))));
        }
    }
    Ok(())
}

fn reset(v: u8, got: &ApplicationResetSubcode) -> Verdict {
    let (name, word) = RESETS[usize::from(v & 15)];
    let debug = format!("{got:?}");
    let text = format!("{got}");
    let json = serde_json::to_value(got).map_err(|e| Fail::new("harness:serde", e.to_string()))?;
    if debug != format!("{name}({v})") || !text.to_lowercase().contains(word) || json != serde_json::json!({ name: v }) {
        return Err(Fail::new("reset", format!("parameter {v:02X} is {debug}, {text:?}, {json}; expected {name}")));
    }
    if guard("ApplicationResetSubcode", || ApplicationResetSubcode::from(v))? != *got {
        return Err(Fail::new("reset", format!("parameter {v:02X} differs from its telegram")));
    }
    Ok(())
}

#[cfg(feature = "decryption")]
fn protection(b: &[u8], block: &UserDataBlock, want: &Kind, obs: &mut Obs) -> Verdict {
    use m_bus_core::decryption::{DecryptionError as D, StaticKeyProvider};
    let keys: StaticKeyProvider<1> = StaticKeyProvider::new();
    let mut out = [0u8; 300];
    let got = guard("decrypt_variable_data", || block.decrypt_variable_data(&keys, &mut out))?;
    obs.eval();
    let fits = match (want, &got) {
        (Kind::Long { mode: 0, .. } | Kind::Short { mode: 0, .. }, g) => *g == Err(D::NotEncrypted),
        // no key is stored; the manufacturer may be unreadable as well
        (Kind::Long { .. }, g) => matches!(g, Err(D::KeyNotFound | D::DecryptionFailed)),
        (_, g) => *g == Err(D::UnknownEncryptionState),
    };
    if !fits || out.iter().any(|x| *x != 0) {
        return Err(Fail::new("kind-protection", format!("{}: decrypting {want:?} gives {got:?}", hex(b))));
    }
    Ok(())
}
