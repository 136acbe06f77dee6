//! EN 13757-3 value information tables, written down independently of the library.

pub type UnitExp = (&'static str, i32);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Vib {
    pub labels: Vec<String>,
    pub units: Vec<UnitExp>,
    pub scale: i64,
    /// Exponent of an additive power of ten.
    pub offset: Option<i64>,
}

const TIME4: [&str; 4] = ["Second", "Minute", "Hour", "Day"];

struct Entry {
    label: Option<&'static str>,
    units: Vec<UnitExp>,
    scale: i64,
}

fn e(label: &'static str, units: &[UnitExp], scale: i64) -> Entry {
    Entry {
        label: Some(label),
        units: units.to_vec(),
        scale,
    }
}

fn l(label: &'static str) -> Entry {
    e(label, &[], 0)
}

/// Primary table, codes 0x00-0x7B (0x6F excluded).
fn primary(c: u8) -> Entry {
    let n = i64::from(c & 7);
    let nn = i64::from(c & 3);
    let t = TIME4[(c & 3) as usize];
    match c >> 3 {
        0x0 => e("Energy", &[("Watt", 1), ("Hour", 1)], n - 3),
        0x1 => e("Energy", &[("Joul", 1)], n),
        0x2 => e("Volume", &[("Meter", 3)], n - 6),
        0x3 => e("Mass", &[("Kilogram", 1)], n - 3),
        0x4 if c < 0x24 => e("OnTime", &[(t, 1)], 0),
        0x4 => e("OperatingTime", &[(t, 1)], 0),
        0x5 => e("Power", &[("Watt", 1)], n - 3),
        0x6 => e("Power", &[("Joul", 1), ("Hour", -1)], n),
        0x7 => e("VolumeFlow", &[("Meter", 3), ("Hour", -1)], n - 6),
        0x8 => e("VolumeFlow", &[("Meter", 3), ("Minute", -1)], n - 7),
        0x9 => e("VolumeFlow", &[("Meter", 3), ("Second", -1)], n - 9),
        0xA => e("MassFlow", &[("Kilogram", 1), ("Hour", -1)], n - 3),
        0xB if c < 0x5C => e("FlowTemperature", &[("Celsius", 1)], nn - 3),
        0xB => e("ReturnTemperature", &[("Celsius", 1)], nn - 3),
        0xC if c < 0x64 => e("TemperatureDifference", &[("Kelvin", 1)], nn - 3),
        0xC => e("ExternalTemperature", &[("Celsius", 1)], nn - 3),
        0xD if c < 0x6C => e("Pressure", &[("Bar", 1)], nn - 3),
        0xD if c == 0x6C => l("Date"),
        0xD if c == 0x6D => l("DateTime"),
        0xD => l("DimensionlessHCA"),
        0xE if c < 0x74 => e("AveragingDuration", &[(t, 1)], 0),
        0xE => e("ActualityDuration", &[(t, 1)], 0),
        _ => match c {
            0x78 => l("FabricationNumber"),
            0x79 => l("EnhancedIdentification"),
            0x7A => l("Address"),
            _ => Entry {
                label: None,
                units: vec![],
                scale: 0,
            },
        },
    }
}

/// Table behind 0xFD.
fn first_extension(c: u8) -> Entry {
    let t = TIME4[(c & 3) as usize];
    match c {
        0x00..=0x03 => e("Credit", &[("LocalMoneyCurrency", 1)], i64::from(c & 3) - 3),
        0x04..=0x07 => e("Debit", &[("LocalMoneyCurrency", 1)], i64::from(c & 3) - 3),
        0x08 => l("UniqueMessageIdentificationOrAccessNumber"),
        0x09 => l("DeviceType"),
        0x0A => l("Manufacturer"),
        0x0B => l("ParameterSetIdentification"),
        0x0C => l("ModelOrVersion"),
        0x0D => l("HardwareVersion"),
        0x0E => l("MetrologyFirmwareVersion"),
        0x0F => l("OtherSoftwareVersion"),
        0x10 => l("CustomerLocation"),
        0x11 => l("Customer"),
        0x12 => l("AccessCodeUser"),
        0x13 => l("AccessCodeOperator"),
        0x14 => l("AccessCodeSystemOperator"),
        0x15 => l("AccessCodeDeveloper"),
        0x16 => l("Password"),
        0x17 => l("ErrorFlags"),
        0x18 => l("ErrorMask"),
        0x19 => l("SecurityKey"),
        0x1A => l("DigitalOutput"),
        0x1B => l("DigitalInput"),
        0x1C => e("BaudRate", &[("Symbol", 1), ("Second", -1)], 0),
        0x1D => e("ResponseDelayTime", &[("BitTime", 1)], 0),
        0x1E => l("Retry"),
        0x1F => l("RemoteControl"),
        0x20 => l("FirstStorageForCycleStorage"),
        0x21 => l("LastStorageForCycleStorage"),
        0x22 => l("SizeOfStorageBlock"),
        0x23 => l("DescriptionOfTariffAndSubunit"),
        0x24..=0x27 => e("StorageInterval", &[(t, 1)], 0),
        0x28 => e("StorageInterval", &[("Month", 1)], 0),
        0x29 => e("StorageInterval", &[("Year", 1)], 0),
        0x2C..=0x2F => e("DurationSinceLastReadout", &[(t, 1)], 0),
        0x30 => l("StartOfTariff"),
        0x31..=0x33 => e("DurationOfTariff", &[(t, 1)], 0),
        0x34..=0x37 => e("PeriodOfTariff", &[(t, 1)], 0),
        0x38 => e("PeriodOfTariff", &[("Month", 1)], 0),
        0x39 => e("PeriodOfTariff", &[("Year", 1)], 0),
        0x3A => l("Dimensionless"),
        0x3B => l("DataContainerForWmbusProtocol"),
        0x3C..=0x3F => e("PeriodOfNormalDataTransmission", &[(t, 1)], 0),
        0x40..=0x4F => e("Voltage", &[("Volt", 1)], i64::from(c & 15) - 9),
        0x50..=0x5F => e("Current", &[("Ampere", 1)], i64::from(c & 15) - 12),
        0x60 => l("ResetCounter"),
        0x61 => l("CumulationCounter"),
        0x62 => l("ControlSignal"),
        0x63 => l("DayOfWeek"),
        0x64 => l("WeekNumber"),
        0x65 => l("TimePointOfChangeOfTariff"),
        0x66 => l("StateOfParameterActivation"),
        0x67 => l("SpecialSupplierInformation"),
        0x68 => e("DurationSinceLastCumulation", &[("Hour", 1)], 0),
        0x69 => e("DurationSinceLastCumulation", &[("Day", 1)], 0),
        0x6A => e("DurationSinceLastCumulation", &[("Month", 1)], 0),
        0x6B => e("DurationSinceLastCumulation", &[("Year", 1)], 0),
        0x6C => e("OperatingTimeBattery", &[("Hour", 1)], 0),
        0x6D => e("OperatingTimeBattery", &[("Day", 1)], 0),
        0x6E => e("OperatingTimeBattery", &[("Month", 1)], 0),
        0x6F => e("OperatingTimeBattery", &[("Year", 1)], 0),
        0x70 => l("DateAndTimeOfBatteryChange"),
        0x71 => e("RFPowerLevel", &[("DecibelMilliWatt", 1)], 0),
        0x72 => l("DaylightSavingBeginningEndingDeviation"),
        0x73 => l("ListeningWindowManagementData"),
        0x74 => e("RemainingBatteryLifeTime", &[("Day", 1)], 0),
        0x75 => l("NumberOfTimesTheMeterWasStopped"),
        0x76 => l("DataContainerForManufacturerSpecificProtocol"),
        _ => l("Reserved"),
    }
}

/// Table behind 0xFD 0xFD.
fn first_extension_second_level(c: u8) -> Entry {
    match c {
        0x00 => l("CurrentlySelectedApplication"),
        0x02 => e("RemainingBatteryLifeTime", &[("Month", 1)], 0),
        0x03 => e("RemainingBatteryLifeTime", &[("Year", 1)], 0),
        0x3E => e("MoistureLevel", &[("Percent", 1)], 0),
        _ => l("Reserved"),
    }
}

/// Table behind 0xFB.
fn second_extension(c: u8) -> Entry {
    let n1 = i64::from(c & 1);
    let n2 = i64::from(c & 3);
    match c {
        0x00..=0x01 => e("Energy", &[("Watt", 1), ("Hour", 1)], 5 + n1),
        0x02..=0x03 => e("ReactiveEnergy", &[("ReactiveWatt", 1), ("Hour", 1)], 3 + n1),
        0x04..=0x05 => e("ApparentEnergy", &[("ApparentWatt", 1), ("Hour", 1)], 3 + n1),
        0x06 => e("CoefficientOfPerformance", &[], -1),
        0x08..=0x09 => e("Energy", &[("Joul", 1)], 8 + n1),
        0x0C..=0x0F => e("Energy", &[("Calorie", 1)], 5 + n2),
        0x10..=0x11 => e("Volume", &[("Meter", 3)], 2 + n1),
        0x14..=0x17 => e("ReactivePower", &[("ReactiveWatt", 1)], n2),
        0x18..=0x19 => e("Mass", &[("Tonne", 1)], 2 + n1),
        0x1A..=0x1B => e("RelativeHumidity", &[("Percent", 1)], n1 - 1),
        0x20 => e("Volume", &[("Feet", 3)], 0),
        0x21 => e("Volume", &[("Feet", 3)], -1),
        0x23 => e("PhaseItoU", &[("Degree", 1)], -1),
        0x28..=0x29 => e("Power", &[("Watt", 1)], 5 + n1),
        0x2A => e("PhaseUtoU", &[("Degree", 1)], -1),
        0x2B => e("PhaseUtoI", &[("Degree", 1)], -1),
        0x2C..=0x2F => e("Frequency", &[("Hertz", 1)], n2 - 3),
        0x30..=0x31 => e("Power", &[("Joul", 1), ("Hour", -1)], 8 + n1),
        0x34..=0x37 => e("ApparentPower", &[("ApparentWatt", 1)], n2),
        0x58..=0x5B => e("FlowTemperature", &[("Fahrenheit", 1)], n2 - 3),
        0x5C..=0x5F => e("ReturnTemperature", &[("Fahrenheit", 1)], n2 - 3),
        0x60..=0x63 => e("TemperatureDifference", &[("Fahrenheit", 1)], n2 - 3),
        0x64..=0x67 => e("ExternalTemperature", &[("Fahrenheit", 1)], n2 - 3),
        0x68 => e("ResultingRatingFactor", &[("HCAUnit", 1)], 0),
        0x69 => e("ThermalOutputRatingFactor", &[("HCAUnit", 1)], 0),
        0x6A => e("ThermalCouplingRatingFactorOverall", &[("HCAUnit", 1)], 0),
        0x6B => e("ThermalCouplingRatingRoomSide", &[("HCAUnit", 1)], 0),
        0x6C => e("ThermalCouplingRatingFactorHeatingSide", &[("HCAUnit", 1)], 0),
        0x6D => e("LowTemperatureRatingFactor", &[("HCAUnit", 1)], 0),
        0x6E => e("DisplayOutputScalingFactor", &[("HCAUnit", 1)], 0),
        0x70..=0x73 => e("ColdWarmTemperatureLimit", &[("Fahrenheit", 1)], n2 - 3),
        0x74..=0x77 => e("ColdWarmTemperatureLimit", &[("Celsius", 1)], n2 - 3),
        0x78..=0x7F => e("CumulativeMaximumOfActivePower", &[("Watt", 1)], i64::from(c & 7) - 3),
        _ => l("Reserved"),
    }
}

/// Combinable (orthogonal) extension.
fn combinable(v: &mut Vib, c: u8) {
    let t = TIME4[(c & 3) as usize];
    let mut label = |s: &str| v.labels.push(s.to_string());
    match c {
        0x00..=0x0F => label("ReservedForObjectActions"),
        0x10..=0x11 => label("Reserved"),
        0x12 => label("Averaged"),
        0x13 => label("InverseCompactProfile"),
        0x14 => label("RelativeDeviation"),
        0x15..=0x1C => label("RecordErrorCodes"),
        0x1D => label("StandardConformDataContent"),
        0x1E => label("CompactProfileWithRegisterNumbers"),
        0x1F => label("CompactProfile"),
        0x20 => v.units.push(("Second", -1)),
        0x21 => v.units.push(("Minute", -1)),
        0x22 => v.units.push(("Hour", -1)),
        0x23 => v.units.push(("Day", -1)),
        0x24 => v.units.push(("Week", -1)),
        0x25 => v.units.push(("Month", -1)),
        0x26 => v.units.push(("Year", -1)),
        0x27 => v.units.push(("Revolution", -1)),
        0x28 => v.units.extend([("Increment", 1), ("InputPulseOnChannel0", -1)]),
        0x29 => v.units.extend([("Increment", 1), ("InputPulseOnChannel1", -1)]),
        0x2A => v.units.extend([("Increment", 1), ("OutputPulseOnChannel0", -1)]),
        0x2B => v.units.extend([("Increment", 1), ("OutputPulseOnChannel1", -1)]),
        0x2C => v.units.push(("Liter", -1)),
        0x2D => v.units.push(("Meter", -3)),
        0x2E => v.units.push(("Kilogram", -1)),
        0x2F => v.units.push(("Kelvin", -1)),
        0x30 => {
            v.units.extend([("Watt", -1), ("Hour", -1)]);
            v.scale -= 3;
        }
        0x31 => {
            v.units.push(("Joul", -1));
            v.scale -= 9;
        }
        0x32 => {
            v.units.push(("Watt", -1));
            v.scale -= 3;
        }
        0x33 => v.units.extend([("Kelvin", -1), ("Liter", -1)]),
        0x34 => v.units.push(("Volt", -1)),
        0x35 => v.units.push(("Ampere", -1)),
        0x36 => v.units.push(("Second", 1)),
        0x37 => v.units.extend([("Second", 1), ("Volt", -1)]),
        0x38 => v.units.extend([("Second", 1), ("Ampere", -1)]),
        0x39 => label("StartDateOf"),
        0x3A => label("VifContainsUncorrectedUnitOrValue"),
        0x3B => label("AccumulationOnlyIfValueIsPositive"),
        0x3C => label("AccumulationOnlyIfValueIsNegative"),
        0x3D => label("NonMetricUnits"),
        0x3E => label("ValueAtBaseConditions"),
        0x3F => label("ObisDeclaration"),
        0x40 => label("LowerLimitValue"),
        0x48 => label("UpperLimitValue"),
        0x41 => label("NumberOfExceedsOfLowerLimitValue"),
        0x49 => label("NumberOfExceedsOfUpperLimitValue"),
        0x42 => label("DateOfBeginFirstLowerLimitExceed"),
        0x43 => label("DateOfEndFirstLowerLimitExceed"),
        0x46 => label("DateOfBeginLastLowerLimitExceed"),
        0x47 => label("DateOfEndLastLowerLimitExceed"),
        0x4A => label("DateOfBeginFirstUpperLimitExceed"),
        0x4B => label("DateOfEndFirstUpperLimitExceed"),
        0x4E => label("DateOfBeginLastUpperLimitExceed"),
        0x4F => label("DateOfEndLastUpperLimitExceed"),
        0x50..=0x53 => {
            label("DurationOfFirstLowerLimitExceed");
            v.units.push((t, 1));
        }
        0x54..=0x57 => {
            label("DurationOfLastLowerLimitExceed");
            v.units.push((t, 1));
        }
        0x58..=0x5B => {
            label("DurationOfFirstUpperLimitExceed");
            v.units.push((t, 1));
        }
        0x5C..=0x5F => {
            label("DurationOfLastUpperLimitExceed");
            v.units.push((t, 1));
        }
        0x60..=0x63 => {
            label("DurationOfFirst");
            v.units.push((t, 1));
        }
        0x64..=0x67 => {
            label("DurationOfLast");
            v.units.push((t, 1));
        }
        0x68 => label("ValueDuringLowerValueExceed"),
        0x6C => label("ValueDuringUpperValueExceed"),
        0x69 => label("LeakageValues"),
        0x6D => label("OverflowValues"),
        0x6A => label("DateOfBeginFirst"),
        0x6B => label("DateOfEndFirst"),
        0x6E => label("DateOfBeginLast"),
        0x6F => label("DateOfEndLast"),
        0x70..=0x77 => v.scale += i64::from(c & 7) - 6,
        0x78..=0x7B => v.offset = Some(i64::from(c & 3) - 3),
        0x7D => v.scale += 3,
        0x7E => label("FutureValue"),
        0x7F => label("NextVIFEAndDataOfThisBlockAreManufacturerSpecific"),
        _ => label("Reserved"),
    }
}

/// Extension of the combinable table (behind 0xFC).
fn combinable_extension(c: u8) -> &'static str {
    match c {
        0x01 => "AtPhaseL1",
        0x02 => "AtPhaseL2",
        0x03 => "AtPhaseL3",
        0x04 => "AtNeutral",
        0x05 => "BetweenPhasesL1L2",
        0x06 => "BetweenPhasesL2L3",
        0x07 => "BetweenPhasesL3L1",
        0x08 => "AtQuadrant1",
        0x09 => "AtQuadrant2",
        0x0A => "AtQuadrant3",
        0x0B => "AtQuadrant4",
        0x0C => "DeltaBetweenImportAndExport",
        0x0D => "AlternativeNonMetricUnits",
        0x0E => "SecondarySensorMeasurement",
        0x0F => "HigherResolutionRegister",
        0x10 => "AccumulationOfAbsoluteValueBothPositiveAndNegativeContribution",
        0x11 => "DataPresentedWithTypeC",
        0x12 => "DataPresentedWithTypeD",
        0x13 => "EndDate",
        0x14 => "DirectionFromCommunicationPartnerToMeter",
        0x15 => "DirectionFromMeterToCommunicationPartner",
        _ => "Reserved",
    }
}

/// Meaning of a complete VIF with its extensions.
pub fn interpret(vif: u8, vifes: &[u8]) -> Result<Vib, &'static str> {
    let mut v = Vib::default();
    let apply = |v: &mut Vib, en: Entry| {
        if let Some(x) = en.label {
            v.labels.push(x.to_string());
        }
        v.units.extend(en.units);
        v.scale += en.scale;
    };
    let mut rest = vifes;
    match vif & 0x7F {
        0x6F => return Err("Unimplemented feature: Primary value information unit codes (partial)"),
        0x7C => v.labels.push("PlainText".into()),
        0x7E | 0x7F => {
            v.labels.push("ManufacturerSpecific".into());
            return finish(v);
        }
        0x7D => {
            let code = *vifes.first().ok_or("Data too short")? & 0x7F;
            rest = &vifes[1..];
            if code == 0x7D && !rest.is_empty() {
                let second = rest[0] & 0x7F;
                rest = &rest[1..];
                apply(&mut v, first_extension_second_level(second));
            } else {
                apply(&mut v, first_extension(code));
                if code == 0x1A || code == 0x1B {
                    v.labels.push("Binary".into());
                }
            }
        }
        0x7B if vif & 0x80 != 0 => {
            let code = *vifes.first().ok_or("Data too short")? & 0x7F;
            rest = &vifes[1..];
            apply(&mut v, second_extension(code));
        }
        c => apply(&mut v, primary(c)),
    }
    let mut prefixed = false;
    for &b in rest {
        if b == 0xFC {
            prefixed = true;
        } else if prefixed {
            prefixed = false;
            v.labels.push(combinable_extension(b & 0x7F).to_string());
        } else {
            combinable(&mut v, b & 0x7F);
            if b & 0x7F == 0x7F {
                break;
            }
        }
    }
    finish(v)
}

/// At most ten labels and ten units can be reported for one record.
fn finish(v: Vib) -> Result<Vib, &'static str> {
    if v.labels.len() > 10 || v.units.len() > 10 {
        Err("Invalid value information")
    } else {
        Ok(v)
    }
}

pub fn ucum(name: &str) -> Option<&'static str> {
    Some(match name {
        "Watt" => "W",
        "Joul" => "J",
        "Kilogram" => "kg",
        "Tonne" => "t",
        "Meter" => "m",
        "Feet" => "[ft_i]",
        "Celsius" => "Cel",
        "Kelvin" => "K",
        "Bar" => "bar",
        "Second" => "s",
        "Minute" => "min",
        "Hour" => "h",
        "Day" => "d",
        "Week" => "wk",
        "Month" => "mo",
        "Year" => "a",
        "Liter" => "L",
        "Volt" => "V",
        "Ampere" => "A",
        "Percent" => "%",
        "Hertz" => "Hz",
        "Fahrenheit" => "[degF]",
        "AmericanGallon" => "[gal_us]",
        "Calorie" => "cal",
        _ => return None,
    })
}

fn display_name(name: &str) -> &str {
    match name {
        "ReactiveWatt" => "W (reactive)",
        "ApparentWatt" => "W (apparent)",
        "Kilogram" => "Kg",
        "Feet" => "ft",
        "Celsius" => "°C",
        "Kelvin" => "°K",
        "Bar" => "Bar",
        "Day" => "day",
        "Week" => "week",
        "Month" => "month",
        "Year" => "year",
        "Revolution" => "revolution",
        "Increment" => "increment",
        "Liter" => "l",
        "LocalMoneyCurrency" => "$ (local)",
        "DecibelMilliWatt" => "dBmW",
        "Degree" => "°",
        "Fahrenheit" => "°F",
        "AmericanGallon" => "UsGal",
        n => match ucum(n) {
            Some(u) => u,
            None => n,
        },
    }
}

fn superscript(n: i32) -> String {
    n.to_string()
        .chars()
        .map(|c| match c {
            '-' => '⁻',
            '1' => '¹',
            '2' => '²',
            '3' => '³',
            d => char::from_u32(0x2070 + (d as u32 - '0' as u32)).unwrap(),
        })
        .collect()
}

pub fn display_units(units: &[UnitExp]) -> String {
    units
        .iter()
        .map(|(n, x)| {
            if *x == 1 {
                display_name(n).to_string()
            } else {
                format!("{}{}", display_name(n), superscript(*x))
            }
        })
        .collect()
}

/// The unit string of the canonical model.
pub fn unit_string(units: &[UnitExp]) -> Option<String> {
    if units.is_empty() {
        return None;
    }
    if units.iter().all(|(n, _)| ucum(n).is_some()) {
        let parts: Vec<String> = units
            .iter()
            .map(|(n, x)| {
                let s = ucum(n).unwrap();
                if *x == 1 {
                    s.to_string()
                } else {
                    format!("{s}{x}")
                }
            })
            .collect();
        Some(parts.join("."))
    } else {
        Some(display_units(units))
    }
}

/// Human readable quantity of a label name.
pub fn quantity(label: &str) -> String {
    match label {
        "Date" => return "Time point (date)".into(),
        "Time" => return "Time point (time)".into(),
        "DateTime" | "DateTimeWithSeconds" => return "Time point (date and time)".into(),
        "DataContainerForWmbusProtocol" => return "Data container for wireless M-Bus protocol".into(),
        "PhaseUtoU" => return "Phase U-to-U".into(),
        "PhaseUtoI" => return "Phase U-to-I".into(),
        "PhaseItoU" => return "Phase I-to-U".into(),
        _ => {}
    }
    // Words start at an upper case letter behind a lower case letter or digit, and at the last
    // capital of a run of capitals that is followed by a lower case letter.
    let b = label.as_bytes();
    let mut starts = vec![0usize];
    for i in 1..b.len() {
        if !b[i].is_ascii_uppercase() {
            continue;
        }
        let after_low = b[i - 1].is_ascii_lowercase() || b[i - 1].is_ascii_digit();
        let run_end = b[i - 1].is_ascii_uppercase() && b.get(i + 1).is_some_and(|c| c.is_ascii_lowercase());
        if after_low || run_end {
            starts.push(i);
        }
    }
    starts.push(b.len());
    let words: Vec<String> = starts
        .windows(2)
        .enumerate()
        .map(|(k, w)| {
            let word = &label[w[0]..w[1]];
            match word {
                "Vif" => "VIF".into(),
                "Vife" => "VIFE".into(),
                "Obis" => "OBIS".into(),
                _ if !word.bytes().any(|c| c.is_ascii_lowercase()) => word.to_string(),
                _ if k == 0 => word.to_string(),
                _ => word.to_ascii_lowercase(),
            }
        })
        .collect();
    words.join(" ")
}
