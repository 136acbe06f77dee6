From 05cf37e643c76fc11717c311e4ef0d5c0c574fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 01/61] fix: report too short wired frames instead of
 underflowing the checksum index

---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From 2d3cb41382ddb70c20b9275c6c989bb336fab23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 02/61] fix: reject wired long frames whose second start byte
 is not 0x68

---
 crates/wired-mbus-link-layer/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..4491921 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -91,6 +91,10 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
                     return Err(FrameError::WrongLengthIndication);
                 }
 
+                if *data.get(3).ok_or(FrameError::LengthShort)? != 0x68 {
+                    return Err(FrameError::InvalidStartByte);
+                }
+
                 if *data.last().ok_or(FrameError::LengthShort)? != 0x16 {
                     return Err(FrameError::InvalidStopByte);
                 }
-- 
2.43.0


From 514234ca558574229e745a41e302181e77ea30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 03/61] fix: accept the wired single character only when it is
 the whole input

---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 4491921..2985716 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -74,7 +74,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
     fn try_from(data: &'a [u8]) -> Result<Self, FrameError> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
-        if first_byte == 0xE5 {
+        if data == [0xE5] {
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From c558fcd4994bddca551e211f4bd058fe32137986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 04/61] fix: report VIFE chains longer than the maximum instead
 of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..e31c55f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -59,14 +59,12 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-                vife.push(current_vife);
+                vife.try_push(current_vife)
+                    .map_err(|_| DataInformationError::InvalidValueInformation)?;
                 offset += 1;
                 if !has_extension {
                     break;
                 }
-                if vife.len() > MAX_VIFE_RECORDS {
-                    return Err(DataInformationError::InvalidValueInformation);
-                }
             }
             if standard_plaintex_vib && vif.value_information_contains_ascii() {
                 plaintext_vife = Some(extract_plaintext_vife(
-- 
2.43.0


From 84d4b7ca45662ccded739a38461cf8aeb88ea31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:07 +0000
Subject: [PATCH 05/61] fix: report plaintext units longer than the buffer
 instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e31c55f..d6dab5e 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -89,7 +89,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::DataTooLong)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From 50fed2bf5547a67e2dbc289074a01c5f6ead3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 06/61] fix: report VIF 0x7D without its extension byte instead
 of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index d6dab5e..eeb17a7 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -157,13 +157,12 @@ impl From<&ValueInformationField> for ValueInformationCoding {
         match value_information.data {
             0x00..=0x7B | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
-            0xFD => Self::MainVIFExtension,
+            0x7D | 0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
             0x7E => Self::ManufacturerSpecific,
             0xFE => Self::ManufacturerSpecific,
             0x7F => Self::ManufacturerSpecific,
             0xFF => Self::ManufacturerSpecific,
-            _ => unreachable!("Invalid value information: {:X}", value_information.data),
         }
     }
 }
-- 
2.43.0


From c38c06ce98ec856efb8203ec20223fdab40d9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 07/61] fix: report VIFE chains with too many labels or units
 instead of panicking

---
 .../src/value_information.rs                  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index eeb17a7..e65c75b 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -5,6 +5,9 @@ use super::data_information::DataInformationError;
 use arrayvec::ArrayVec;
 
 const MAX_VIFE_RECORDS: usize = 10;
+// A VIF and every VIFE contribute at most one (the VIF two) labels and two units.
+const MAX_DECODED_LABELS: usize = 2 + MAX_VIFE_RECORDS;
+const MAX_DECODED_UNITS: usize = 2 + 2 * MAX_VIFE_RECORDS;
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[derive(Debug, PartialEq, Copy, Clone)]
@@ -211,8 +214,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
     fn try_from(
         value_information_block: &ValueInformationBlock,
     ) -> Result<Self, DataInformationError> {
-        let mut units = ArrayVec::<Unit, 10>::new();
-        let mut labels = ArrayVec::<ValueLabel, 10>::new();
+        let mut units = ArrayVec::<Unit, MAX_DECODED_UNITS>::new();
+        let mut labels = ArrayVec::<ValueLabel, MAX_DECODED_LABELS>::new();
         let mut decimal_scale_exponent: isize = 0;
         let mut decimal_offset_exponent = 0;
         let vife_slice = match &value_information_block.value_information_extension {
@@ -704,17 +707,23 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
 
         Ok(Self {
             decimal_offset_exponent,
-            labels,
+            labels: labels
+                .as_slice()
+                .try_into()
+                .map_err(|_| DataInformationError::InvalidValueInformation)?,
             decimal_scale_exponent,
-            units,
+            units: units
+                .as_slice()
+                .try_into()
+                .map_err(|_| DataInformationError::InvalidValueInformation)?,
         })
     }
 }
 
 fn consume_orthhogonal_vife(
     vife: &[ValueInformationFieldExtension],
-    labels: &mut ArrayVec<ValueLabel, 10>,
-    units: &mut ArrayVec<Unit, 10>,
+    labels: &mut ArrayVec<ValueLabel, MAX_DECODED_LABELS>,
+    units: &mut ArrayVec<Unit, MAX_DECODED_UNITS>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
 ) {
-- 
2.43.0


From 126cbcf41fc88234698a961d286e78e7208feeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:08 +0000
Subject: [PATCH 08/61] fix: decode zero-length variable integers without
 underflowing the shift

---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..6b70dfd 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,8 +563,8 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
-    let data_value = if byte_size < 8 && msb == 1 {
+    let negative = shift > 0 && (data_value >> (shift - 1)) & 1 == 1;
+    let data_value = if byte_size < 8 && negative {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
         data_value
-- 
2.43.0


From e44474e81e761378a8f4c5c248e049bf6822133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:07 +0000
Subject: [PATCH 09/61] fix: reject nested extended link layers instead of
 recursing without bound

A nested layer also hid the encryption fields of an inner ELL II or III,
so its ciphertext was decoded as cleartext records.
---
 crates/m-bus-application-layer/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..a598972 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1132,6 +1132,10 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     receiver_address: None,
                     encryption: None,
                 });
+                // A telegram carries at most one extended link layer.
+                if let Some(0x8C..=0x8E) = iter.as_slice().first() {
+                    return Err(ApplicationLayerError::MissingControlInformation);
+                }
                 match UserDataBlock::try_from(iter.as_slice()) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
-- 
2.43.0


From 66a8bf2be65904565d48b7502154fe3fe4a34c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:10 +0000
Subject: [PATCH 10/61] fix: start the DIFE storage number bits right after the
 DIF bit

---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 6b70dfd..cbd16e6 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << ((device_index * 4) + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From 33518e84c36af8b61289da27d5511434ed99e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:11 +0000
Subject: [PATCH 11/61] fix: read the year of type F and I timestamps from
 their date bytes

---
 .../m-bus-application-layer/src/data_information.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index cbd16e6..6fa42d2 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -499,9 +499,9 @@ macro_rules! parse_month {
 }
 
 macro_rules! parse_year {
-    ($input:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
-        let byte1 = u16::from($input.get(1).copied().unwrap_or(0) & $mask_byte1);
-        let byte2 = u16::from($input.get(0).copied().unwrap_or(0) & $mask_byte2);
+    ($input:expr, $offset:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
+        let byte1 = u16::from($input.get($offset + 1).copied().unwrap_or(0) & $mask_byte1);
+        let byte2 = u16::from($input.get($offset).copied().unwrap_or(0) & $mask_byte2);
         let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);
         if year == $all_value {
             SingleEveryOrInvalid::Every()
@@ -772,7 +772,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(1).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 0, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::Date(day, month, year)),
@@ -799,7 +799,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 2, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -863,7 +863,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 3, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From 90dff2bfee70e57efeccbe51c00027150adfc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:11 +0000
Subject: [PATCH 12/61] fix: decode day 31 of timestamps and the every-day and
 every-month codes

---
 crates/m-bus-application-layer/src/data_information.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 6fa42d2..889e8ea 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -493,6 +493,7 @@ macro_rules! parse_month {
             0xA => SingleEveryOrInvalid::Single(Month::October),
             0xB => SingleEveryOrInvalid::Single(Month::November),
             0xC => SingleEveryOrInvalid::Single(Month::December),
+            0xF => SingleEveryOrInvalid::Every(),
             _ => SingleEveryOrInvalid::Invalid(),
         }
     };
@@ -795,7 +796,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -859,7 +860,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From 7d2d85b2a30c5f762b58c6657c537e2f7021d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:47 +0000
Subject: [PATCH 13/61] fix: report out of range hours, minutes and seconds as
 invalid

---
 .../src/data_information.rs                   | 50 ++++++++++---------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 889e8ea..14987fb 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -478,6 +478,16 @@ macro_rules! parse_single_or_every {
     };
 }
 
+macro_rules! parse_time_field {
+    ($input:expr, $mask:expr, $maximum:expr) => {
+        match $input & $mask {
+            $mask => SingleEveryOrInvalid::Every(),
+            value if value <= $maximum => SingleEveryOrInvalid::Single(value),
+            _ => SingleEveryOrInvalid::Invalid(),
+        }
+    };
+}
+
 macro_rules! parse_month {
     ($input:expr) => {
         match $input & 0xF {
@@ -781,17 +791,15 @@ impl DataFieldCoding {
                 })
             }
             Self::DateTimeTypeF => {
-                let minutes = parse_single_or_every!(
+                let minutes = parse_time_field!(
                     input.first().ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-                    0x3F,
-                    0
+                    59
                 );
-                let hour = parse_single_or_every!(
+                let hour = parse_time_field!(
                     input.get(1).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
-                    0
+                    23
                 );
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
@@ -808,23 +816,20 @@ impl DataFieldCoding {
                 })
             }
             Self::DateTimeTypeJ => {
-                let seconds = parse_single_or_every!(
+                let seconds = parse_time_field!(
                     input.first().ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-                    0x3F,
-                    0
+                    59
                 );
-                let minutes = parse_single_or_every!(
+                let minutes = parse_time_field!(
                     input.get(1).ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-                    0x3F,
-                    0
+                    59
                 );
-                let hours = parse_single_or_every!(
+                let hours = parse_time_field!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
-                    0
+                    23
                 );
 
                 Ok(Data {
@@ -837,25 +842,22 @@ impl DataFieldCoding {
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
 
-                let seconds = parse_single_or_every!(
+                let seconds = parse_time_field!(
                     input.first().ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-                    0x3F,
-                    0
+                    59
                 );
 
-                let minutes = parse_single_or_every!(
+                let minutes = parse_time_field!(
                     input.get(1).ok_or(DataRecordError::InsufficientData)?,
                     0x3F,
-                    0x3F,
-                    0
+                    59
                 );
 
-                let hours = parse_single_or_every!(
+                let hours = parse_time_field!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
-                    0
+                    23
                 );
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
-- 
2.43.0


From aa90563f6e33a07cc9214d151193f832539e2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:48 +0000
Subject: [PATCH 14/61] fix: keep timestamps with a wildcard second out of the
 ISO 8601 form

---
 src/output.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..c3b6426 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1588,13 +1588,22 @@ fn temporal_iso(
     let year = single(year);
     let hour = hour.and_then(single);
     let minute = minute.and_then(single);
-    let second = second.and_then(single);
     match kind {
         "date" => Some(format!("{:04}-{:02}-{:02}", year?, month?, day?)),
-        "time" => Some(format!("{:02}:{:02}:{:02}", hour?, minute?, second?)),
+        "time" => Some(format!(
+            "{:02}:{:02}:{:02}",
+            hour?,
+            minute?,
+            second.and_then(single)?
+        )),
         _ if second.is_some() => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
-            year?, month?, day?, hour?, minute?, second?
+            year?,
+            month?,
+            day?,
+            hour?,
+            minute?,
+            second.and_then(single)?
         )),
         _ => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:00",
-- 
2.43.0


From 90e72079d6fc751e14df016c331d13e3da7e5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:38 +0000
Subject: [PATCH 15/61] fix: take the size of time points from their data field

Time points with another data field size than the assumed one shifted
all following records.
---
 .../src/data_information.rs                   |  2 +-
 .../src/data_record.rs                        | 37 ++++++++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 14987fb..b3cb913 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -834,7 +834,7 @@ impl DataFieldCoding {
 
                 Ok(Data {
                     value: Some(DataType::Time(seconds, minutes, hours)),
-                    size: 4,
+                    size: 3,
                 })
             }
             Self::DateTimeTypeI => {
diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..eead5ae 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -202,21 +202,30 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // unfortunately, the data field coding is not always set in the data information block
             // so we must do some additional checks to determine the correct data field coding
 
-            if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
-            } else if v.labels.contains(&ValueLabel::DateTime) {
-                // VIF 0x6D with a 6-byte data field is a type I date and time
-                // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
+            // The VIF only announces a point in time, its type follows from the
+            // size of the data field (EN 13757-3). Any other data field keeps
+            // the coding given by the DIF.
+            d.data_field_coding = match d.data_field_coding {
+                DataFieldCoding::Integer16Bit if v.labels.contains(&ValueLabel::Date) => {
+                    DataFieldCoding::DateTypeG
+                }
+                DataFieldCoding::Integer24Bit
+                    if v.labels.contains(&ValueLabel::DateTime)
+                        || v.labels.contains(&ValueLabel::Time) =>
+                {
+                    DataFieldCoding::DateTimeTypeJ
+                }
+                DataFieldCoding::Integer32Bit if v.labels.contains(&ValueLabel::DateTime) => {
                     DataFieldCoding::DateTimeTypeF
-                };
-            } else if v.labels.contains(&ValueLabel::Time) {
-                d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
-            } else if v.labels.contains(&ValueLabel::DateTimeWithSeconds) {
-                d.data_field_coding = DataFieldCoding::DateTimeTypeI;
-            }
+                }
+                DataFieldCoding::Integer48Bit
+                    if v.labels.contains(&ValueLabel::DateTime)
+                        || v.labels.contains(&ValueLabel::DateTimeWithSeconds) =>
+                {
+                    DataFieldCoding::DateTimeTypeI
+                }
+                coding => coding,
+            };
 
             value_information = Some(v);
             data_information = Some(d);
-- 
2.43.0


From 168ed226fdd9539cbb2f18a82b8e88e815a34fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:38 +0000
Subject: [PATCH 16/61] fix: report type I timestamps that miss their last byte
 as truncated

---
 crates/m-bus-application-layer/src/data_information.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index b3cb913..ae3b182 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -838,6 +838,9 @@ impl DataFieldCoding {
                 })
             }
             Self::DateTimeTypeI => {
+                if input.len() < 6 {
+                    return Err(DataRecordError::InsufficientData);
+                }
                 // note: more information can be extracted from the data,
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
-- 
2.43.0


From a3ce4ea124d2ce5bf469c7af7c04da2368ee07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:14 +0000
Subject: [PATCH 17/61] fix: apply the byte order of CI 0x76 to cleartext
 records too

Only decrypted records and the low-level record iterator honoured it, so
the same telegram gave different values with and without encryption.
---
 .../src/data_information.rs                   |  8 ++++-
 .../src/data_record.rs                        | 13 ++++----
 crates/m-bus-application-layer/src/lib.rs     | 30 ++++++-------------
 .../src/variable_user_data.rs                 |  4 +--
 src/mbus_data.rs                              |  8 +++--
 5 files changed, 29 insertions(+), 34 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index ae3b182..5e63ece 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -598,8 +598,14 @@ impl DataFieldCoding {
         input: &'a [u8],
         fixed_data_header: Option<&'a LongTplHeader>,
     ) -> Result<Data<'a>, DataRecordError> {
-        let lsb_order = fixed_data_header.map(|x| x.lsb_order).unwrap_or(false);
+        self.parse_with_order(input, fixed_data_header.is_some_and(|x| x.lsb_order))
+    }
 
+    pub(crate) fn parse_with_order<'a>(
+        &self,
+        input: &'a [u8],
+        lsb_order: bool,
+    ) -> Result<Data<'a>, DataRecordError> {
         macro_rules! bcd_to_value {
             ($data:expr, $num_digits:expr) => {{
                 bcd_to_value_internal($data, $num_digits, 1, lsb_order)
diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index eead5ae..bfe2cff 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -98,10 +98,7 @@ impl DataRecord<'_> {
 }
 
 impl<'a> DataRecord<'a> {
-    fn parse(
-        data: &'a [u8],
-        fixed_data_header: Option<&'a LongTplHeader>,
-    ) -> Result<Self, DataRecordError> {
+    pub(crate) fn parse(data: &'a [u8], lsb_order: bool) -> Result<Self, DataRecordError> {
         let data_record_header = DataRecordHeader::try_from(data)?;
         let header_size = data_record_header.get_size();
         if data.len() < header_size {
@@ -112,10 +109,10 @@ impl<'a> DataRecord<'a> {
             .processed_data_record_header
             .data_information
         {
-            data_info.data_field_coding.parse(
+            data_info.data_field_coding.parse_with_order(
                 data.get(offset..)
                     .ok_or(DataRecordError::InsufficientData)?,
-                fixed_data_header,
+                lsb_order,
             )?
         } else {
             Data {
@@ -264,14 +261,14 @@ impl<'a> TryFrom<(&'a [u8], &'a LongTplHeader)> for DataRecord<'a> {
     fn try_from(
         (data, fixed_data_header): (&'a [u8], &'a LongTplHeader),
     ) -> Result<Self, Self::Error> {
-        Self::parse(data, Some(fixed_data_header))
+        Self::parse(data, fixed_data_header.lsb_order)
     }
 }
 
 impl<'a> TryFrom<&'a [u8]> for DataRecord<'a> {
     type Error = DataRecordError;
     fn try_from(data: &'a [u8]) -> Result<Self, Self::Error> {
-        Self::parse(data, None)
+        Self::parse(data, false)
     }
 }
 
diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index a598972..f099f16 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -80,7 +80,7 @@ pub const fn parse_data_records_with_header<'a>(
 pub struct DataRecords<'a> {
     offset: usize,
     data: &'a [u8],
-    long_tpl_header: Option<&'a LongTplHeader>,
+    lsb_order: bool,
 }
 
 #[cfg(feature = "std")]
@@ -107,34 +107,19 @@ impl<'a> Iterator for DataRecords<'a> {
                     | data_information::SpecialFunctions::MoreRecordsFollow => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset = self.data.len();
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
-                            DataRecord::try_from((remaining, long_tpl_header))
-                        } else {
-                            DataRecord::try_from(remaining)
-                        };
-                        return Some(record);
+                        return Some(DataRecord::parse(remaining, self.lsb_order));
                     }
                     data_information::SpecialFunctions::GlobalReadoutRequest => {
                         let remaining = self.data.get(self.offset..)?;
                         self.offset += 1;
-                        let record = if let Some(long_tpl_header) = self.long_tpl_header {
-                            DataRecord::try_from((remaining, long_tpl_header))
-                        } else {
-                            DataRecord::try_from(remaining)
-                        };
-                        return Some(record);
+                        return Some(DataRecord::parse(remaining, self.lsb_order));
                     }
                     data_information::SpecialFunctions::Reserved => {
                         self.offset += 1;
                     }
                 }
             } else {
-                let record = if let Some(long_tpl_header) = self.long_tpl_header {
-                    DataRecord::try_from((self.data.get(self.offset..)?, long_tpl_header))
-                } else {
-                    DataRecord::try_from(self.data.get(self.offset..)?)
-                };
-                match record {
+                match DataRecord::parse(self.data.get(self.offset..)?, self.lsb_order) {
                     Ok(record) => {
                         self.offset += record.get_size();
                         return Some(Ok(record));
@@ -152,11 +137,14 @@ impl<'a> Iterator for DataRecords<'a> {
 
 impl<'a> DataRecords<'a> {
     #[must_use]
-    pub const fn new(data: &'a [u8], long_tpl_header: Option<&'a LongTplHeader>) -> Self {
+    pub const fn new(data: &'a [u8], long_tpl_header: Option<&LongTplHeader>) -> Self {
         DataRecords {
             offset: 0,
             data,
-            long_tpl_header,
+            lsb_order: match long_tpl_header {
+                Some(header) => header.lsb_order,
+                None => false,
+            },
         }
     }
 }
diff --git a/crates/m-bus-application-layer/src/variable_user_data.rs b/crates/m-bus-application-layer/src/variable_user_data.rs
index df3baad..e8670b8 100644
--- a/crates/m-bus-application-layer/src/variable_user_data.rs
+++ b/crates/m-bus-application-layer/src/variable_user_data.rs
@@ -55,8 +55,8 @@ impl<'a> From<&'a [u8]> for DataRecords<'a> {
     }
 }
 
-impl<'a> From<(&'a [u8], &'a LongTplHeader)> for DataRecords<'a> {
-    fn from((data, fixed_data_header): (&'a [u8], &'a LongTplHeader)) -> Self {
+impl<'a> From<(&'a [u8], &LongTplHeader)> for DataRecords<'a> {
+    fn from((data, fixed_data_header): (&'a [u8], &LongTplHeader)) -> Self {
         DataRecords::new(data, Some(fixed_data_header))
     }
 }
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 4a22f16..a242dca 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -37,10 +37,13 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, frames::WiredFrame<'a>> {
                     Ok(x) => {
                         match &x {
                             user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                                long_tpl_header,
                                 variable_data_block,
                                 ..
+                            } => {
+                                data_records = Some((*variable_data_block, long_tpl_header).into());
                             }
-                            | user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
+                            user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                                 variable_data_block,
                                 ..
                             }
@@ -87,10 +90,11 @@ impl<'a> TryFrom<&'a [u8]> for MbusData<'a, WirelessFrame<'a>> {
             Ok(user_data_block) => {
                 match &user_data_block {
                     user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+                        long_tpl_header,
                         variable_data_block,
                         ..
                     } => {
-                        data_records = Some((*variable_data_block).into());
+                        data_records = Some((*variable_data_block, long_tpl_header).into());
                     }
                     user_data::UserDataBlock::VariableDataStructureWithShortTplHeader {
                         variable_data_block,
-- 
2.43.0


From 5b2541fded4b1c6d34fb59a0746456ebb06754d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:15 +0000
Subject: [PATCH 18/61] fix: do not expose records of payloads encrypted by the
 extended link layer

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index f099f16..e751d10 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -569,10 +569,16 @@ impl<'a> UserDataBlock<'a> {
                 long_tpl_header,
             )),
             Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
                 short_tpl_header,
                 variable_data_block,
-                ..
-            } if !short_tpl_header.is_encrypted() => Some(parse_data_records(variable_data_block)),
+            } if !short_tpl_header.is_encrypted()
+                && !extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some()) =>
+            {
+                Some(parse_data_records(variable_data_block))
+            }
             Self::VariableDataStructureWithoutTplHeader {
                 variable_data_block,
                 ..
-- 
2.43.0


From a7d7a1948a04e423839f6db35c05319552550419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:53 +0000
Subject: [PATCH 19/61] fix: count skipped filler bytes in the offset of a
 malformed record

---
 crates/m-bus-application-layer/src/lib.rs | 10 +++++++++-
 src/output.rs                             | 12 ++++--------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index e751d10..1f87291 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -125,7 +125,7 @@ impl<'a> Iterator for DataRecords<'a> {
                         return Some(Ok(record));
                     }
                     Err(error) => {
-                        self.offset = self.data.len();
+                        self.data = self.data.get(..self.offset)?;
                         return Some(Err(error));
                     }
                 }
@@ -147,6 +147,14 @@ impl<'a> DataRecords<'a> {
             },
         }
     }
+
+    /// Returns the offset of the first byte that has not been consumed.
+    ///
+    /// After an error this is the start of the record that failed to parse.
+    #[must_use]
+    pub const fn offset(&self) -> usize {
+        self.offset
+    }
 }
 
 bitflags::bitflags! {
diff --git a/src/output.rs b/src/output.rs
index c3b6426..0843b42 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1256,15 +1256,11 @@ fn collect_records(
         return (Vec::new(), None);
     };
     let mut output = Vec::new();
-    let mut offset = 0usize;
-    for item in records.clone() {
+    let mut records = records.clone();
+    while let Some(item) = records.next() {
         match item {
-            Ok(record) => {
-                let size = record.raw_bytes().len();
-                output.push(record_output(output.len(), &record));
-                offset += size;
-            }
-            Err(error) => return (output, Some((offset, error.to_string()))),
+            Ok(record) => output.push(record_output(output.len(), &record)),
+            Err(error) => return (output, Some((records.offset(), error.to_string()))),
         }
     }
     (output, None)
-- 
2.43.0


From b6205e8dba26ce99146f082c9e1927b4cdec34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:10 +0000
Subject: [PATCH 20/61] fix: serialize the records before a malformed one
 instead of none

---
 crates/m-bus-application-layer/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 1f87291..d289997 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -86,8 +86,7 @@ pub struct DataRecords<'a> {
 #[cfg(feature = "std")]
 impl<'a> From<DataRecords<'a>> for Vec<DataRecord<'a>> {
     fn from(value: DataRecords<'a>) -> Self {
-        let value: Result<Vec<_>, _> = value.collect();
-        value.unwrap_or_default()
+        value.flatten().collect()
     }
 }
 
-- 
2.43.0


From 05bf518c5f7e9c5a29f6fbbdf01cf78db75e2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:32 +0000
Subject: [PATCH 21/61] fix: keep all digits of variable length BCD values

---
 src/output.rs | 53 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 0843b42..3ad0ce0 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -470,7 +470,7 @@ pub fn decode_data_records(data: &[u8]) -> Result<Vec<RecordOutput>, OutputError
         return Err(OutputError::EmptyInput);
     }
     let records = user_data::DataRecords::from(data);
-    let (output, error) = collect_records(Some(&records));
+    let (output, error) = collect_records(Some(&records), false);
     if let Some((offset, message)) = error {
         return Err(OutputError::Rendering {
             code: "application.records_invalid",
@@ -970,7 +970,14 @@ fn build_output(
         });
     }
 
-    let (record_outputs, record_error) = collect_records(records);
+    let lsb_order = matches!(
+        user_data,
+        Some(user_data::UserDataBlock::VariableDataStructureWithLongTplHeader {
+            long_tpl_header,
+            ..
+        }) if long_tpl_header.lsb_order
+    );
+    let (record_outputs, record_error) = collect_records(records, lsb_order);
     if let Some((offset, message)) = record_error.as_ref() {
         diagnostics.push(Diagnostic {
             severity: "warning".to_string(),
@@ -1251,6 +1258,7 @@ fn enrichment_for(code: &str) -> Option<EnrichmentOutput> {
 
 fn collect_records(
     records: Option<&user_data::DataRecords<'_>>,
+    lsb_order: bool,
 ) -> (Vec<RecordOutput>, Option<(usize, String)>) {
     let Some(records) = records else {
         return (Vec::new(), None);
@@ -1259,14 +1267,18 @@ fn collect_records(
     let mut records = records.clone();
     while let Some(item) = records.next() {
         match item {
-            Ok(record) => output.push(record_output(output.len(), &record)),
+            Ok(record) => output.push(record_output(output.len(), &record, lsb_order)),
             Err(error) => return (output, Some((records.offset(), error.to_string()))),
         }
     }
     (output, None)
 }
 
-fn record_output(index: usize, record: &user_data::DataRecord<'_>) -> RecordOutput {
+fn record_output(
+    index: usize,
+    record: &user_data::DataRecord<'_>,
+    lsb_order: bool,
+) -> RecordOutput {
     let information = record.data_information();
     let value_information = record.value_information();
     let function = information
@@ -1294,7 +1306,7 @@ fn record_output(index: usize, record: &user_data::DataRecord<'_>) -> RecordOutp
         tariff,
         subunit,
         quantities,
-        value: value_output(record),
+        value: value_output(record, lsb_order),
         unit,
         data_coding,
         header_hex: record.data_record_header_hex(),
@@ -1446,7 +1458,7 @@ fn standardized_word(word: &str, first: bool) -> String {
     }
 }
 
-fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
+fn value_output(record: &user_data::DataRecord<'_>, lsb_order: bool) -> ValueOutput {
     let information = record.data_information();
     let value_information = record.value_information();
     let scale = value_information.map(|value| value.decimal_scale_exponent);
@@ -1467,8 +1479,8 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
                 };
             }
 
-            let significand =
-                exact_significand(record, *number).unwrap_or_else(|| format!("{number:.0}"));
+            let significand = exact_significand(record, *number, lsb_order)
+                .unwrap_or_else(|| format!("{number:.0}"));
             let scale_value = scale.unwrap_or(0);
             let decimal = scaled_decimal(&significand, scale_value, offset);
             ValueOutput {
@@ -1646,7 +1658,11 @@ fn finite_number(value: f64) -> (Option<f64>, Option<String>) {
     }
 }
 
-fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<String> {
+fn exact_significand(
+    record: &user_data::DataRecord<'_>,
+    parsed: f64,
+    lsb_order: bool,
+) -> Option<String> {
     let information = record.data_information()?;
     let header_size = record.data_record_header.get_size();
     let data = record.raw_bytes().get(header_size..)?;
@@ -1662,15 +1678,28 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
         | DataFieldCoding::BCD6Digit
         | DataFieldCoding::BCD8Digit
         | DataFieldCoding::BCDDigit12 => Some(format!("{parsed:.0}")),
-        DataFieldCoding::VariableLength => exact_variable_significand(data, parsed),
+        DataFieldCoding::VariableLength => exact_variable_significand(data, lsb_order),
         _ => None,
     }
 }
 
-fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
+fn exact_variable_significand(data: &[u8], lsb_order: bool) -> Option<String> {
     let marker = *data.first()?;
     match marker {
-        0xC0..=0xC9 | 0xD0..=0xD9 => Some(format!("{parsed:.0}")),
+        0xC0..=0xC9 | 0xD0..=0xD9 => {
+            let digits = data.get(1..=usize::from(marker & 0x0F))?;
+            let magnitude = if lsb_order {
+                hex_string(digits)
+            } else {
+                hex_string(&digits.iter().rev().copied().collect::<Vec<_>>())
+            };
+            let magnitude = magnitude.trim_start_matches('0');
+            Some(match magnitude {
+                "" => "0".to_string(),
+                _ if marker >= 0xD0 => format!("-{magnitude}"),
+                _ => magnitude.to_string(),
+            })
+        }
         0xE0..=0xEF => {
             let length = usize::from(marker - 0xE0);
             signed_le_decimal(data.get(1..=length)?)
-- 
2.43.0


From 1c13da691cdef432031bb1815c2254f808179be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:21 +0000
Subject: [PATCH 22/61] fix: report MWh energy with watt hours instead of cubic
 watts per hour

---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e65c75b..6826b9b 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -592,8 +592,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
-- 
2.43.0


From f94c081263cd13b8a97d21558dc19df27642d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:21 +0000
Subject: [PATCH 23/61] fix: report the battery operating time of VIFE 0x6F in
 years

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 6826b9b..77732f4 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -513,7 +513,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
-- 
2.43.0


From 27e3557fb50ac6cd7f04ba62ddd8ed965945b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:22 +0000
Subject: [PATCH 24/61] fix: report the per litre VIFE as a reciprocal unit

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 77732f4..cfa922d 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -797,7 +797,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From d2788baf8ba44b6125737f7bf8ecb4610e4b83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:23 +0000
Subject: [PATCH 25/61] fix: assign the begin and end date VIFEs as the
 standard does

---
 crates/m-bus-application-layer/src/value_information.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index cfa922d..e92e946 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -956,9 +956,9 @@ fn consume_orthhogonal_vife(
                 0x69 => labels.push(ValueLabel::LeakageValues),
                 0x6D => labels.push(ValueLabel::OverflowValues),
                 0x6A => labels.push(ValueLabel::DateOfBeginFirst),
-                0x6B => labels.push(ValueLabel::DateOfBeginLast),
-                0x6E => labels.push(ValueLabel::DateOfEndLast),
-                0x6F => labels.push(ValueLabel::DateOfEndFirst),
+                0x6B => labels.push(ValueLabel::DateOfEndFirst),
+                0x6E => labels.push(ValueLabel::DateOfBeginLast),
+                0x6F => labels.push(ValueLabel::DateOfEndLast),
                 0x70..=0x77 => {
                     *decimal_scale_exponent += (v.data & 0b111) as isize - 6;
                 }
-- 
2.43.0


From f1e6381430db912a7c50df23292e6d1f3f6a16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:42 +0000
Subject: [PATCH 26/61] fix: report the unit of averaging and actuality
 durations

---
 .../src/value_information.rs                  | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e92e946..344342d 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -344,8 +344,38 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     0x6C => labels.push(ValueLabel::Date),
                     0x6D => labels.push(ValueLabel::DateTime),
                     0x6E => labels.push(ValueLabel::DimensionlessHCA),
-                    0x70..=0x73 => labels.push(ValueLabel::AveragingDuration),
-                    0x74..=0x77 => labels.push(ValueLabel::ActualityDuration),
+                    0x70 => {
+                        units.push(unit!(Second));
+                        labels.push(ValueLabel::AveragingDuration);
+                    }
+                    0x71 => {
+                        units.push(unit!(Minute));
+                        labels.push(ValueLabel::AveragingDuration);
+                    }
+                    0x72 => {
+                        units.push(unit!(Hour));
+                        labels.push(ValueLabel::AveragingDuration);
+                    }
+                    0x73 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::AveragingDuration);
+                    }
+                    0x74 => {
+                        units.push(unit!(Second));
+                        labels.push(ValueLabel::ActualityDuration);
+                    }
+                    0x75 => {
+                        units.push(unit!(Minute));
+                        labels.push(ValueLabel::ActualityDuration);
+                    }
+                    0x76 => {
+                        units.push(unit!(Hour));
+                        labels.push(ValueLabel::ActualityDuration);
+                    }
+                    0x77 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::ActualityDuration);
+                    }
                     0x78 => labels.push(ValueLabel::FabricationNumber),
                     0x79 => labels.push(ValueLabel::EnhancedIdentification),
                     0x7A => labels.push(ValueLabel::Address),
-- 
2.43.0


From 32c30f3573e79e8ee18c7491e3b0c3048ad576c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:43 +0000
Subject: [PATCH 27/61] fix: assign the main extension VIFEs 0x2C to 0x3F as
 the standard does

---
 .../src/value_information.rs                  | 70 +++++++++++++++++--
 1 file changed, 63 insertions(+), 7 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 344342d..53c18b8 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -477,25 +477,77 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         units.push(unit!(Year));
                         labels.push(ValueLabel::StorageInterval);
                     }
-                    0x30 => labels.push(ValueLabel::DimensionlessHCA),
-                    0x31 => labels.push(ValueLabel::DataContainerForWmbusProtocol),
+                    0x2C => {
+                        units.push(unit!(Second));
+                        labels.push(ValueLabel::DurationSinceLastReadout);
+                    }
+                    0x2D => {
+                        units.push(unit!(Minute));
+                        labels.push(ValueLabel::DurationSinceLastReadout);
+                    }
+                    0x2E => {
+                        units.push(unit!(Hour));
+                        labels.push(ValueLabel::DurationSinceLastReadout);
+                    }
+                    0x2F => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::DurationSinceLastReadout);
+                    }
+                    0x30 => labels.push(ValueLabel::StartOfTariff),
+                    0x31 => {
+                        units.push(unit!(Minute));
+                        labels.push(ValueLabel::DurationOfTariff);
+                    }
                     0x32 => {
+                        units.push(unit!(Hour));
+                        labels.push(ValueLabel::DurationOfTariff);
+                    }
+                    0x33 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::DurationOfTariff);
+                    }
+                    0x34 => {
+                        units.push(unit!(Second));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x35 => {
+                        units.push(unit!(Minute));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x36 => {
+                        units.push(unit!(Hour));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x37 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x38 => {
+                        units.push(unit!(Month));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x39 => {
+                        units.push(unit!(Year));
+                        labels.push(ValueLabel::PeriodOfTariff);
+                    }
+                    0x3A => labels.push(ValueLabel::Dimensionless),
+                    0x3B => labels.push(ValueLabel::DataContainerForWmbusProtocol),
+                    0x3C => {
                         units.push(unit!(Second));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x33 => {
-                        units.push(unit!(Meter));
+                    0x3D => {
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x34 => {
+                    0x3E => {
                         units.push(unit!(Hour));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x35 => {
+                    0x3F => {
                         units.push(unit!(Day));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
-                    0x3A => labels.push(ValueLabel::Dimensionless),
                     0x40..=0x4F => {
                         units.push(unit!(Volt));
                         labels.push(ValueLabel::Voltage);
@@ -1199,6 +1251,10 @@ pub enum ValueLabel {
     Dimensionless,
     DimensionlessHCA,
     DataContainerForWmbusProtocol,
+    DurationSinceLastReadout,
+    StartOfTariff,
+    DurationOfTariff,
+    PeriodOfTariff,
     PeriodOfNormalDataTransmission,
     ResetCounter,
     CumulationCounter,
-- 
2.43.0


From 1b8a51b5ba531bbed17f4c568eae0c0c344a3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:21 +0000
Subject: [PATCH 28/61] fix: give the remaining battery life time a unit and
 the change date none

---
 .../m-bus-application-layer/src/value_information.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 53c18b8..5c43b0c 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -598,17 +598,17 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
-                    0x70 => {
-                        units.push(unit!(Second));
-                        labels.push(ValueLabel::DateAndTimeOfBatteryChange);
-                    }
+                    0x70 => labels.push(ValueLabel::DateAndTimeOfBatteryChange),
                     0x71 => {
                         units.push(unit!(DecibelMilliWatt));
                         labels.push(ValueLabel::RFPowerLevel);
                     }
                     0x72 => labels.push(ValueLabel::DaylightSavingBeginningEndingDeviation),
                     0x73 => labels.push(ValueLabel::ListeningWindowManagementData),
-                    0x74 => labels.push(ValueLabel::RemainingBatteryLifeTime),
+                    0x74 => {
+                        units.push(unit!(Day));
+                        labels.push(ValueLabel::RemainingBatteryLifeTime);
+                    }
                     0x75 => labels.push(ValueLabel::NumberOfTimesTheMeterWasStopped),
                     0x76 => labels.push(ValueLabel::DataContainerForManufacturerSpecificProtocol),
                     0x7D => match second_vife_data.map(|s| s & 0x7F) {
-- 
2.43.0


From dfbbb7ce0b6fd18007c420acebc21116b49b0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:22 +0000
Subject: [PATCH 29/61] fix: do not read the second level extension code as a
 combinable VIFE too

---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5c43b0c..717e094 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -629,9 +629,11 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     },
                     _ => labels.push(ValueLabel::Reserved),
                 }
-                // Skip vife_slice[0] — it's the true VIF (already consumed above)
+                // Skip the true VIF (already consumed above), which takes two bytes
+                // in the second level extension table
+                let true_vif_size = if first_vife_data & 0x7F == 0x7D { 2 } else { 1 };
                 consume_orthhogonal_vife(
-                    vife_slice.get(1..).unwrap_or(&[]),
+                    vife_slice.get(true_vif_size..).unwrap_or(&[]),
                     &mut labels,
                     &mut units,
                     &mut decimal_scale_exponent,
-- 
2.43.0


From 46e22d5a5af3ae61c7cf99007796451acbd5c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:23 +0000
Subject: [PATCH 30/61] fix: do not interpret manufacturer specific VIFEs as
 standard ones

---
 crates/m-bus-application-layer/src/value_information.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 717e094..76a2d7f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -1053,7 +1053,10 @@ fn consume_orthhogonal_vife(
                     *decimal_scale_exponent += 3;
                 }
                 0x7E => labels.push(ValueLabel::FutureValue),
-                0x7F => labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific),
+                0x7F => {
+                    labels.push(ValueLabel::NextVIFEAndDataOfThisBlockAreManufacturerSpecific);
+                    break;
+                }
                 _ => labels.push(ValueLabel::Reserved),
             };
         }
-- 
2.43.0


From 2c3d81301969dc9b61d5dd9fe355ce5cb7c589d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:54 +0000
Subject: [PATCH 31/61] fix: take additive corrections only from combinable
 VIFEs

---
 src/output.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 3ad0ce0..96771df 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1767,17 +1767,29 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
-    block
-        .value_information_extension
-        .as_ref()?
-        .iter()
-        .filter_map(|extension| {
-            let code = extension.data & 0x7F;
-            (0x78..=0x7B)
-                .contains(&code)
-                .then(|| isize::from(extension.data & 0b11) - 3)
-        })
-        .next_back()
+    let extensions = block.value_information_extension.as_ref()?;
+    // The extension tables take their true VIF from the first extension bytes.
+    let true_vif_size = match (block.value_information.data, extensions.first()) {
+        (0xFD, Some(first)) if first.data & 0x7F == 0x7D => 2,
+        (0xFB | 0xFD, _) => 1,
+        (0xFE | 0xFF, _) => return None,
+        _ => 0,
+    };
+    let mut offset = None;
+    let mut prefixed = false;
+    for extension in extensions.iter().skip(true_vif_size) {
+        if extension.data == 0xFC {
+            prefixed = true;
+            continue;
+        }
+        match extension.data & 0x7F {
+            _ if prefixed => prefixed = false,
+            0x78..=0x7B => offset = Some(isize::from(extension.data & 0b11) - 3),
+            0x7F => break,
+            _ => {}
+        }
+    }
+    offset
 }
 
 fn scaled_decimal(significand: &str, scale: isize, offset: Option<isize>) -> String {
-- 
2.43.0


From ffa15a8859f14c99c29b667025a0b177a5bddea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:06 +0000
Subject: [PATCH 32/61] fix: print corrected decimal values without leading
 zeros

---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 96771df..d3dce4d 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1898,7 +1898,8 @@ fn compare_abs(left: &str, right: &str) -> std::cmp::Ordering {
 
 fn apply_power10(integer: &str, exponent: isize) -> String {
     let (negative, digits) = split_sign(integer);
-    if digits.bytes().all(|digit| digit == b'0') {
+    let digits = digits.trim_start_matches('0');
+    if digits.is_empty() {
         return "0".to_string();
     }
     let mut output = if exponent >= 0 {
-- 
2.43.0


From ed18715ab768491865518a2f20dc01683fe69e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:40 +0000
Subject: [PATCH 33/61] fix: keep table rows aligned around control characters
 and emoji sequences

---
 src/output.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index d3dce4d..a9ac07d 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -9,7 +9,7 @@ use std::fmt;
 
 use m_bus_core::SecurityMode;
 use serde::Serialize;
-use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
+use unicode_width::UnicodeWidthStr;
 use wired_mbus_link_layer as wired;
 use wireless_mbus_link_layer as wireless;
 
@@ -2418,16 +2418,20 @@ fn wrap_display(value: &str, width: usize) -> Vec<String> {
             continue;
         }
         let mut line = String::new();
-        let mut line_width = 0usize;
         for character in source_line.chars() {
-            let character_width = UnicodeWidthChar::width(character).unwrap_or(0);
-            if line_width != 0 && line_width + character_width > width {
-                lines.push(line);
-                line = String::new();
-                line_width = 0;
-            }
+            // Control characters would break the layout of the box.
+            let character = if character.is_control() {
+                '·'
+            } else {
+                character
+            };
+            let previous_length = line.len();
             line.push(character);
-            line_width += character_width;
+            // The width of a sequence is not always the sum of its characters.
+            if previous_length != 0 && UnicodeWidthStr::width(line.as_str()) > width {
+                line.truncate(previous_length);
+                lines.push(std::mem::replace(&mut line, character.to_string()));
+            }
         }
         lines.push(line);
     }
-- 
2.43.0


From 4f4f59fb603fb96ae77210a73ae09ceaba8fe1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:58 +0000
Subject: [PATCH 34/61] fix: keep record texts from adding lines or directives
 to mermaid output

---
 src/mbus_data.rs | 2 ++
 src/output.rs    | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index a242dca..e1b453f 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1447,6 +1447,8 @@ fn mermaid_escape(s: &str) -> String {
     s.replace('"', "#quot;")
         .replace('[', "#91;")
         .replace(']', "#93;")
+        .replace("%%", "%#37;")
+        .replace(|c: char| c.is_control(), " ")
 }
 
 #[cfg(test)]
diff --git a/src/output.rs b/src/output.rs
index a9ac07d..6116fa9 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -2623,7 +2623,9 @@ fn mermaid_escape(value: &str) -> String {
         .replace('"', "&quot;")
         .replace('<', "&lt;")
         .replace('>', "&gt;")
-        .replace('\n', " ")
+        // "%%" starts a comment or directive anywhere in a mermaid source
+        .replace("%%", "%&#37;")
+        .replace(|character: char| character.is_control(), " ")
 }
 
 fn hex_string(data: &[u8]) -> String {
-- 
2.43.0


From 975e503597434f0bbadfbdcab7715ba3094d7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:14 +0000
Subject: [PATCH 35/61] fix: decrypt annotated frames with a trailing CRC at
 the right offset

---
 src/mbus_data.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index e1b453f..63b75a9 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1367,12 +1367,12 @@ fn decrypted_wireless_hexview_data(data: &[u8], key: &[u8; 16]) -> Option<Vec<u8
         &mut decrypted_buffer,
     )?;
 
-    let app_data_len = parsed_data.frame.data.len();
-    let app_start = wireless_data.len().checked_sub(app_data_len)?;
-    let payload_start = app_start + app_data_len.checked_sub(variable_data_len)?;
-    let payload_end = payload_start + variable_data_len;
+    // The payload follows the ten header bytes. A trailing frame CRC is left out
+    // because it does not match the decrypted payload.
+    let payload_end = 10 + parsed_data.frame.data.len();
+    let payload_start = payload_end.checked_sub(variable_data_len)?;
 
-    let mut display_data = wireless_data.to_vec();
+    let mut display_data = wireless_data.get(..payload_end)?.to_vec();
     let decrypted_data = decrypted_buffer.get(..decrypted_len)?;
     display_data.splice(payload_start..payload_end, decrypted_data.iter().copied());
     if let Some(length) = display_data.len().checked_sub(1) {
-- 
2.43.0


From f80057b6ceb7fc39cb2cd1d5eaea9797c7111904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:40 +0000
Subject: [PATCH 36/61] fix: annotate payloads protected by the extended link
 layer as encrypted

---
 src/annotate.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 5407076..930531d 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -620,7 +620,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
@@ -661,7 +668,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
-- 
2.43.0


From d2bc3f711b349e331f5b9635eed553bde2fbe7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:41 +0000
Subject: [PATCH 37/61] fix: annotate behind an ELL I header only what the
 decoder accepts there

---
 src/annotate.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 930531d..d2a2688 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -577,8 +577,20 @@ fn annotate_application_layer(
             // The rest is nested application data parsed by the application layer
             let inner_data = &app_data[total_header..];
             let inner_base = base + total_header;
-            if !inner_data.is_empty() {
-                annotate_application_layer(segments, frame_data, inner_base, inner_data);
+            match inner_data.first() {
+                None => {}
+                // The decoder accepts only these headers behind an ELL I
+                Some(0x78 | 0x7A | 0xA0..=0xAF) => {
+                    annotate_application_layer(segments, frame_data, inner_base, inner_data);
+                }
+                Some(inner_ci) => segments.push(ByteSegment {
+                    start: inner_base,
+                    end: inner_base + inner_data.len(),
+                    kind: SegmentKind::Unknown,
+                    detail: Cow::Owned(format!("Unsupported CI after ELL I: 0x{:02X}", inner_ci)),
+                    group: None,
+                    layer: Layer::AppHeader,
+                }),
             }
         }
 
-- 
2.43.0


From d8481fad1f770418316039b2d5cd3ef00087688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:42 +0000
Subject: [PATCH 38/61] fix: number annotated records behind a global readout
 request correctly

---
 src/annotate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index d2a2688..e53d503 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -862,8 +862,22 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     return;
                 }
+                0x7F => {
+                    // Global readout request - a record without data
+                    segments.push(ByteSegment {
+                        start: base + offset,
+                        end: base + offset + 1,
+                        kind: SegmentKind::Dif,
+                        detail: Cow::Borrowed("Global Readout Request: 0x7F"),
+                        group: Some(record_index),
+                        layer: Layer::RecordField,
+                    });
+                    offset += 1;
+                    record_index += 1;
+                    continue;
+                }
                 _ => {
-                    // Other special functions (0x7F etc.)
+                    // Reserved special functions
                     segments.push(ByteSegment {
                         start: base + offset,
                         end: base + offset + 1,
-- 
2.43.0


From d19c8a1af7be7dade732987a6e82654933fe8ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:43 +0000
Subject: [PATCH 39/61] fix: keep annotated text values on the line of their
 segment

---
 src/annotate.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index e53d503..959b120 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -1497,11 +1497,13 @@ pub fn render_annotations(segments: &[ByteSegment], data: &[u8]) -> String {
         };
 
         let kind_str = format!("{}", seg.kind);
+        // Text values may contain line breaks that would look like new rows
+        let detail = seg.detail.replace(|c: char| c.is_control(), "·");
 
         let _ = writeln!(
             out,
             "│  {:<10} {:<24} {:<22} {}",
-            offset_str, hex_str, kind_str, seg.detail
+            offset_str, hex_str, kind_str, detail
         );
     }
 
-- 
2.43.0


From 2c7fe17c74eb71689092abd34a208b50796b304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:07 +0000
Subject: [PATCH 40/61] fix: annotate no records behind a long header the
 decoder rejects

---
 src/annotate.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 959b120..cef484d 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -408,8 +408,17 @@ fn annotate_application_layer(
                         layer: Layer::RecordField,
                     });
                 }
-            } else {
+            } else if m_bus_application_layer::UserDataBlock::try_from(app_data).is_ok() {
                 annotate_data_records(segments, records_start, records_data);
+            } else if !records_data.is_empty() {
+                segments.push(ByteSegment {
+                    start: records_start,
+                    end: records_start + records_data.len(),
+                    kind: SegmentKind::Unknown,
+                    detail: Cow::Borrowed("Data behind an invalid long TPL header"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
-- 
2.43.0


From 16867c3894b8cc8d3b28922a96c96d7b383dea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:06 +0000
Subject: [PATCH 41/61] fix: report VIFE chains cut off by the end of the data

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 76a2d7f..a31ff14 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -58,7 +58,7 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 Some(chars) if !standard_plaintex_vib => 1 + 1 + chars.len(),
                 _ => 1,
             };
-            while offset < data.len() {
+            loop {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-- 
2.43.0


From 8a63c22345119dfb7cafb3517065d2ef8e02d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:20 +0000
Subject: [PATCH 42/61] fix: annotate plaintext units where they are when they
 precede the extensions

---
 src/annotate.rs | 57 ++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index cef484d..1953577 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -967,33 +967,36 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     } else {
                         0
                     };
-                    if vife_count > 0 {
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + vife_count,
-                            kind: SegmentKind::Vife,
-                            detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
-                            group: Some(record_index),
-                            layer: Layer::RecordField,
-                        });
-                        offset += vife_count;
-                    }
-
-                    // Plaintext VIF
-                    if let Some(plaintext) = &vib.plaintext_vife {
-                        let pt_size = plaintext.len() + 1; // 1 for length byte
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + pt_size,
-                            kind: SegmentKind::PlaintextVif,
-                            detail: Cow::Owned(format!(
-                                "Plaintext VIF: \"{}\"",
-                                plaintext.iter().collect::<String>()
-                            )),
-                            group: Some(record_index),
-                            layer: Layer::RecordField,
-                        });
-                        offset += pt_size;
+                    // Plaintext VIF follows the VIFEs unless the build expects it before them
+                    let vife_first = !cfg!(feature = "plaintext-before-extension");
+                    for is_vife in [vife_first, !vife_first] {
+                        if is_vife && vife_count > 0 {
+                            segments.push(ByteSegment {
+                                start: base + offset,
+                                end: base + offset + vife_count,
+                                kind: SegmentKind::Vife,
+                                detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
+                                group: Some(record_index),
+                                layer: Layer::RecordField,
+                            });
+                            offset += vife_count;
+                        }
+
+                        if let (false, Some(plaintext)) = (is_vife, &vib.plaintext_vife) {
+                            let pt_size = plaintext.len() + 1; // 1 for length byte
+                            segments.push(ByteSegment {
+                                start: base + offset,
+                                end: base + offset + pt_size,
+                                kind: SegmentKind::PlaintextVif,
+                                detail: Cow::Owned(format!(
+                                    "Plaintext VIF: \"{}\"",
+                                    plaintext.iter().collect::<String>()
+                                )),
+                                group: Some(record_index),
+                                layer: Layer::RecordField,
+                            });
+                            offset += pt_size;
+                        }
                     }
                 }
 
-- 
2.43.0


From 543c625306b736c340beec415827ce8f4d4ba633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:36 +0000
Subject: [PATCH 43/61] fix: keep XML output well formed for text with
 noncharacters

---
 src/rscada_xml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index f015f87..3272635 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -1131,7 +1131,8 @@ fn product_name(manufacturer: &str, version: u8, medium: u8, id: u32) -> String
 fn xml_encode(text: &str) -> String {
     let mut out = String::with_capacity(text.len());
     for c in text.chars() {
-        if c.is_ascii_control() {
+        // U+FFFE and U+FFFF are not XML characters
+        if c.is_ascii_control() || matches!(c, '\u{FFFE}' | '\u{FFFF}') {
             out.push(' ');
         } else {
             match c {
-- 
2.43.0


From 7e07c50746cee0bb4a4cfb37abbfee1784ead6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:24 +0000
Subject: [PATCH 44/61] fix: report the time of day as invalid when its IV bit
 is set

---
 .../src/data_information.rs                     | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 5e63ece..4b8cdc3 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -807,6 +807,14 @@ impl DataFieldCoding {
                     0x1F,
                     23
                 );
+                // the IV bit marks the time of day as invalid
+                let (minutes, hour) = match input.first() {
+                    Some(byte) if byte & 0x80 != 0 => (
+                        SingleEveryOrInvalid::Invalid(),
+                        SingleEveryOrInvalid::Invalid(),
+                    ),
+                    _ => (minutes, hour),
+                };
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
@@ -868,6 +876,15 @@ impl DataFieldCoding {
                     0x1F,
                     23
                 );
+                // the IV bit marks the time of day as invalid
+                let (seconds, minutes, hours) = match input.get(1) {
+                    Some(byte) if byte & 0x80 != 0 => (
+                        SingleEveryOrInvalid::Invalid(),
+                        SingleEveryOrInvalid::Invalid(),
+                        SingleEveryOrInvalid::Invalid(),
+                    ),
+                    _ => (seconds, minutes, hours),
+                };
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-- 
2.43.0


From b1b39bf333621f6a83d7454798b9416807bc07ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:51 +0000
Subject: [PATCH 45/61] fix: report the position of invalid hex digits in the
 caller's text

---
 src/output.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 6116fa9..be4e35d 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -552,6 +552,8 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
     if trimmed.is_empty() {
         return Err(OutputError::EmptyInput);
     }
+    // Reported positions refer to the caller's text, not to the trimmed one.
+    let leading = input.len() - input.trim_start().len();
 
     if trimmed
         .chars()
@@ -559,7 +561,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
     {
         if !trimmed.len().is_multiple_of(2) {
             return Err(OutputError::InvalidHex {
-                index: trimmed.len() - 1,
+                index: leading + trimmed.len() - 1,
                 message: "compact hexadecimal input must contain an even number of digits"
                     .to_string(),
             });
@@ -569,7 +571,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
             .map(|index| {
                 u8::from_str_radix(&trimmed[index..index + 2], 16).map_err(|error| {
                     OutputError::InvalidHex {
-                        index,
+                        index: leading + index,
                         message: error.to_string(),
                     }
                 })
@@ -579,7 +581,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
 
     let mut bytes = Vec::new();
     let mut token = String::new();
-    let mut token_start = 0usize;
+    let mut token_start = leading;
     let mut saw_separator = true;
     for (index, character) in trimmed.char_indices() {
         if character.is_ascii_whitespace() || matches!(character, ':' | '-') {
@@ -591,7 +593,7 @@ pub fn decode_hex_bytes(input: &str) -> Result<Vec<u8>, OutputError> {
             continue;
         }
         if saw_separator {
-            token_start = index;
+            token_start = leading + index;
             saw_separator = false;
         }
         token.push(character);
-- 
2.43.0


From 3fe4078da6f285c00866473e22a6dfc929064b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:01 +0000
Subject: [PATCH 46/61] fix: do not overflow or exhaust memory on extreme table
 widths

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index be4e35d..be7ac86 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -23,6 +23,8 @@ use crate::user_data::value_information::{Unit, UnitName, ValueLabel};
 const SCHEMA_VERSION: u8 = 3;
 const DEFAULT_TABLE_WIDTH: usize = 100;
 const MINIMUM_TABLE_WIDTH: usize = 32;
+/// Terminals report their size in 16 bits; wider requests only cost memory.
+const MAXIMUM_TABLE_WIDTH: usize = u16::MAX as usize;
 
 /// Canonical output formats supported by the typed rendering API.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
@@ -2159,6 +2161,7 @@ fn render_table(decoded: &DecodedOutput, width: usize) -> Result<String, OutputE
             message: format!("must be at least {MINIMUM_TABLE_WIDTH} columns"),
         });
     }
+    let width = width.min(MAXIMUM_TABLE_WIDTH);
     let mut output = String::new();
     let title = format!(
         "{} {} frame · {} decode",
-- 
2.43.0


From 6434f6f4ef99057e14a358a480377d19c78d44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:02 +0000
Subject: [PATCH 47/61] fix: do not decrypt a wired telegram as a wireless
 frame in the annotated view

---
 src/mbus_data.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 63b75a9..7396079 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1270,7 +1270,11 @@ fn annotated_segments_to_json(data: &[u8]) -> String {
 
 #[cfg(all(feature = "std", feature = "decryption"))]
 fn decrypted_hexview_data(data: &[u8], key: &[u8; 16]) -> Option<Vec<u8>> {
-    decrypted_wired_hexview_data(data, key).or_else(|| decrypted_wireless_hexview_data(data, key))
+    if frames::WiredFrame::try_from(data).is_ok() {
+        decrypted_wired_hexview_data(data, key)
+    } else {
+        decrypted_wireless_hexview_data(data, key)
+    }
 }
 
 #[cfg(all(feature = "std", feature = "decryption"))]
-- 
2.43.0


From e40b762258c405272d2935a149826e65073a82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:29 +0000
Subject: [PATCH 48/61] fix: connect legacy flowchart records to the frame when
 there is no device block

---
 src/mbus_data.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 7396079..9deaf27 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -876,6 +876,10 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                 styles.push_str("    style FUNC fill:#2980b9,color:#fff,stroke:#1a5276\n");
                 styles.push_str("    style ADDR fill:#2980b9,color:#fff,stroke:#1a5276\n");
 
+                let has_device_info = matches!(
+                    parsed_data.user_data,
+                    Some(UserDataBlock::VariableDataStructureWithLongTplHeader { .. })
+                );
                 if let Some(UserDataBlock::VariableDataStructureWithLongTplHeader {
                     long_tpl_header,
                     ..
@@ -983,7 +987,8 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    end\n");
                     styles.push_str("    style REC_SG fill:#6c3483,color:#fff,stroke:#4a235a\n");
                     styles.push_str(&pads);
-                    out.push_str("    DEV_SG --> REC_SG\n");
+                    let parent = if has_device_info { "DEV_SG" } else { "FRAME_SG" };
+                    out.push_str(&format!("    {parent} --> REC_SG\n"));
                 }
             }
             frames::WiredFrame::ShortFrame { function, address } => {
-- 
2.43.0


From 897edcb73375ed07c4a613762040f78a8f7a06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:29 +0000
Subject: [PATCH 49/61] fix: keep the frame and records in legacy YAML when a
 value nests enums

---
 src/mbus_data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 9deaf27..57b80e7 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -511,6 +511,10 @@ fn summarize_wireless(
 #[cfg(feature = "std")]
 fn build_output<T: serde::Serialize>(parsed: &T, summary: FrameSummary) -> ParsedOutput {
     let mut json = serde_json::to_value(parsed).unwrap_or_default();
+    // YAML tags cannot express enums inside enums; those become plain mappings.
+    let mut yaml = serde_yaml::to_string(parsed)
+        .or_else(|_| serde_yaml::to_string(&json))
+        .unwrap_or_default();
     if let serde_json::Value::Object(ref mut map) = json {
         map.insert(
             "summary".to_string(),
@@ -518,7 +522,6 @@ fn build_output<T: serde::Serialize>(parsed: &T, summary: FrameSummary) -> Parse
         );
     }
 
-    let mut yaml = serde_yaml::to_string(parsed).unwrap_or_default();
     yaml.push_str(
         &serde_yaml::to_string(&SummarySection { summary: &summary }).unwrap_or_default(),
     );
-- 
2.43.0


From b34166b3cce8844ddb4d71b0e57de658f803d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:29 +0000
Subject: [PATCH 50/61] fix: do not list ciphertext of the extended link layer
 as legacy records

---
 src/mbus_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 57b80e7..9bd7b7e 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -291,8 +291,15 @@ fn user_data_is_encrypted(user_data: Option<&user_data::UserDataBlock>) -> bool
             long_tpl_header, ..
         }) => long_tpl_header.is_encrypted(),
         Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
-            short_tpl_header, ..
-        }) => short_tpl_header.is_encrypted(),
+            extended_link_layer,
+            short_tpl_header,
+            ..
+        }) => {
+            short_tpl_header.is_encrypted()
+                || extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some())
+        }
         _ => false,
     }
 }
-- 
2.43.0


From 147090c3250cdd61c7dcea1ef73c3de64508a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:13 +0000
Subject: [PATCH 51/61] fix: read integers longer than eight bytes from all
 their bytes

---
 .../src/data_information.rs                   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 4b8cdc3..c6d83a1 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -567,9 +567,26 @@ fn bcd_to_value_internal(
 }
 
 fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
+    if byte_size > 8 {
+        let bytes = data.get(..byte_size).unwrap_or(data);
+        let negative = bytes.last().is_some_and(|byte| byte & 0x80 != 0);
+        let magnitude = bytes.iter().rev().fold(0.0, |value, byte| {
+            value * 256.0 + f64::from(if negative { !byte } else { *byte })
+        });
+        let value = if negative {
+            -(magnitude + 1.0)
+        } else {
+            magnitude
+        };
+        return Data {
+            value: Some(DataType::LossyNumber(value)),
+            size: byte_size,
+        };
+    }
+
     let mut data_value = 0i64;
     let mut shift = 0;
-    for byte in data.iter().take(if byte_size > 8 { 8 } else { byte_size }) {
+    for byte in data.iter().take(byte_size) {
         data_value |= (*byte as i64) << shift;
         shift += 8;
     }
@@ -581,13 +598,8 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         data_value
     };
 
-    let output = if byte_size > 8 {
-        DataType::LossyNumber(data_value as f64)
-    } else {
-        DataType::Number(data_value as f64)
-    };
     Data {
-        value: Some(output),
+        value: Some(DataType::Number(data_value as f64)),
         size: byte_size,
     }
 }
-- 
2.43.0


From 978cbd60ecf1997f2dfeda7654ef000a22762c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:51 +0000
Subject: [PATCH 52/61] fix: do not take a status and security mode from
 encrypted extended link layers

---
 src/mbus_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 9bd7b7e..6f02667 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -408,6 +408,13 @@ fn apply_user_data_summary(
             summary.version = Some(long_tpl_header.version);
             summary.device_type = Some(long_tpl_header.device_type.to_string());
         }
+        // Encrypted by the extended link layer: the transport header is not readable.
+        Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
+            extended_link_layer: Some(ell),
+            ..
+        }) if ell.encryption.is_some() => {
+            summary.access_number = Some(ell.access_number);
+        }
         Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
             short_tpl_header, ..
         }) => {
-- 
2.43.0


From 7c532d88dfbe188e8c182719f8939847e6bad824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:47 +0000
Subject: [PATCH 53/61] fix: keep ISO 8859-1 text in the XML rendering

---
 src/rscada_xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index 3272635..fa0181c 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -641,10 +641,10 @@ fn bcd_decode(bytes: &[u8]) -> f64 {
     value as f64
 }
 
-/// Reversed ASCII string decode (`mbus_data_str_decode`).
+/// Reversed ASCII string decode (`mbus_data_str_decode`). Bytes that are not
+/// UTF-8 are ISO 8859-1.
 fn str_decode(bytes: &[u8]) -> String {
-    let reversed: Vec<u8> = bytes.iter().rev().copied().collect();
-    String::from_utf8_lossy(&reversed).into_owned()
+    user_data::data_information::TextUnit::new(bytes).to_string()
 }
 
 /// Space-separated hex dump (`mbus_data_bin_decode`).
-- 
2.43.0


From 90d4c402c6025cd14b1fc87c6c547d10388b0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:03 +0000
Subject: [PATCH 54/61] fix: let a record heading in the hex viewer close its
 own record

---
 docs/index.html | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/docs/index.html b/docs/index.html
index 518cd7f..7b1d1d5 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -1392,12 +1392,13 @@
                     groupHeader.innerHTML = '<span class="arrow">\u25BC</span> Record ' + seg.group;
                     groupDiv.appendChild(groupHeader);
 
-                    groupBody = document.createElement('div');
-                    groupBody.className = 'hex-tree-group-body';
-                    groupDiv.appendChild(groupBody);
+                    const ownBody = document.createElement('div');
+                    ownBody.className = 'hex-tree-group-body';
+                    groupDiv.appendChild(ownBody);
+                    groupBody = ownBody;
 
                     groupHeader.addEventListener('click', () => {
-                        groupBody.classList.toggle('hidden');
+                        ownBody.classList.toggle('hidden');
                         groupHeader.classList.toggle('collapsed');
                     });
 
-- 
2.43.0


From fbb36804eb8a1d3a97f030ef388c60177ce466ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:03 +0000
Subject: [PATCH 55/61] fix: clear the copied and downloaded output when the
 web page rejects a key

---
 docs/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/docs/index.html b/docs/index.html
index 7b1d1d5..da08091 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -1024,6 +1024,8 @@
                 }
 
                 if (aesKey && !/^[0-9A-Fa-f]{32}$/.test(aesKey)) {
+                    window._lastRawOutput = '';
+                    updateDownload('', 'txt', 'text/plain');
                     renderOutputError(outputContainer, {
                         code: 'option.invalid',
                         message: 'AES key must contain exactly 32 hexadecimal characters.',
-- 
2.43.0


From fae1c40a9429093b3e1cf2cc7765e4d98ac89548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:03 +0000
Subject: [PATCH 56/61] fix: ignore a diagram that finishes after another
 output was requested

---
 docs/index.html | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/docs/index.html b/docs/index.html
index da08091..ca85957 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -864,6 +864,7 @@
         let currentFormat = "json";
         let lastTableWidth = null;
         let tableResizeTimer = null;
+        let latestRequest = 0;
 
         mermaid.initialize({ startOnLoad: false, securityLevel: 'strict', theme: 'default' });
 
@@ -1014,6 +1015,7 @@
             async function parseInput(format, updateHistory = true) {
                 format = format === 'table_format' ? 'table' : format;
                 currentFormat = format;
+                const request = ++latestRequest;
                 const inputString = document.getElementById('inputstring').value;
                 const aesKey = document.getElementById('aeskey').value.trim();
                 const outputContainer = document.getElementById('output');
@@ -1080,8 +1082,10 @@
                         );
                     }
 
+                    if (request !== latestRequest) return;
                     updateDownload(formattedResult, extension, mimeType);
                 } catch (error) {
+                    if (request !== latestRequest) return;
                     window._lastRawOutput = '';
                     renderOutputError(outputContainer, error);
                     updateDownload('', extension, mimeType);
-- 
2.43.0


From f0bcae5353a1606d15c0b67d4504ce8587f153aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:03 +0000
Subject: [PATCH 57/61] fix: do not redraw the table after another format was
 chosen

---
 docs/index.html | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docs/index.html b/docs/index.html
index ca85957..d371f92 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -1009,7 +1009,9 @@
                 const width = measureTableWidth();
                 if (width === lastTableWidth) return;
                 clearTimeout(tableResizeTimer);
-                tableResizeTimer = setTimeout(() => parseInput('table', false), 120);
+                tableResizeTimer = setTimeout(() => {
+                    if (currentFormat === 'table') parseInput('table', false);
+                }, 120);
             }).observe(document.getElementById('output-container'));
 
             async function parseInput(format, updateHistory = true) {
-- 
2.43.0


From 7303a7233b1bb82ed73c451c610d62886d5f05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:11 +0000
Subject: [PATCH 58/61] fix: copy the share link where the clipboard interface
 is missing

---
 docs/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/index.html b/docs/index.html
index d371f92..6505544 100644
--- a/docs/index.html
+++ b/docs/index.html
@@ -994,7 +994,7 @@
                 const inputString = document.getElementById('inputstring').value;
                 const params = new URLSearchParams({ data: inputString, format: currentFormat });
                 const shareUrl = `${location.origin}${location.pathname}?${params}`;
-                navigator.clipboard.writeText(shareUrl);
+                writeClipboard(shareUrl);
                 const btn = document.getElementById('share_button');
                 btn.title = 'Copied!';
                 setTimeout(() => { btn.title = 'Copy share link'; }, 2000);
-- 
2.43.0


From 7e56f1ba13a96db1dc1838de8006181647fec05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:25 +0000
Subject: [PATCH 59/61] fix: log the status field without recursing

The defmt format of StatusField formatted itself through its own
implementation, so logging any transport header overflowed the stack.
---
 crates/m-bus-application-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index d289997..523f870 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -175,7 +175,7 @@ bitflags::bitflags! {
 #[cfg(feature = "defmt")]
 impl defmt::Format for StatusField {
     fn format(&self, f: defmt::Formatter) {
-        defmt::write!(f, "{:?}", self);
+        defmt::write!(f, "StatusField({=u8:#x})", self.bits());
     }
 }
 
-- 
2.43.0


From 2560118ff52dc577a299b11966fa69c959aeaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:29 +0000
Subject: [PATCH 60/61] fix: annotate decimal records in the byte order of the
 telegram

---
 src/annotate.rs  | 31 +++++++++++++++++++++++++------
 src/mbus_data.rs | 12 +++++++++++-
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 1953577..7f27977 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -6,6 +6,7 @@
 //! related fields (e.g., all bytes of a data record).
 
 use crate::user_data::data_record::DataRecord;
+use crate::user_data::{LongTplHeader, UserDataBlock};
 use crate::MbusError;
 use std::borrow::Cow;
 use std::fmt;
@@ -408,8 +409,8 @@ fn annotate_application_layer(
                         layer: Layer::RecordField,
                     });
                 }
-            } else if m_bus_application_layer::UserDataBlock::try_from(app_data).is_ok() {
-                annotate_data_records(segments, records_start, records_data);
+            } else if let Some(header) = long_tpl_header(app_data) {
+                annotate_data_records(segments, records_start, records_data, Some(&header));
             } else if !records_data.is_empty() {
                 segments.push(ByteSegment {
                     start: records_start,
@@ -526,7 +527,7 @@ fn annotate_application_layer(
                     });
                 }
             } else {
-                annotate_data_records(segments, offset, records_data);
+                annotate_data_records(segments, offset, records_data, None);
             }
         }
 
@@ -543,7 +544,7 @@ fn annotate_application_layer(
 
             let records_data = &app_data[1..];
             if !records_data.is_empty() {
-                annotate_data_records(segments, base + 1, records_data);
+                annotate_data_records(segments, base + 1, records_data, None);
             }
         }
 
@@ -824,7 +825,12 @@ fn annotate_long_tpl_header(
 
 // ── Data record annotation ──────────────────────────────────────────────────
 
-pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize, data: &[u8]) {
+pub(crate) fn annotate_data_records(
+    segments: &mut Vec<ByteSegment>,
+    base: usize,
+    data: &[u8],
+    long_tpl_header: Option<&LongTplHeader>,
+) {
     let mut offset = 0usize;
     let mut record_index = 0usize;
 
@@ -905,7 +911,10 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
 
         // Try to parse the data record to get accurate sizes
         let remaining = &data[offset..];
-        let record_result = DataRecord::try_from(remaining);
+        let record_result = match long_tpl_header {
+            Some(header) => DataRecord::try_from((remaining, header)),
+            None => DataRecord::try_from(remaining),
+        };
 
         match record_result {
             Ok(record) => {
@@ -1368,6 +1377,16 @@ fn crc16_en13757(data: &[u8]) -> u16 {
     crc ^ 0xFFFF
 }
 
+/// The long TPL header of a telegram, which decides the byte order of its records.
+pub(crate) fn long_tpl_header(app_data: &[u8]) -> Option<LongTplHeader> {
+    match UserDataBlock::try_from(app_data) {
+        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
+            long_tpl_header, ..
+        }) => Some(long_tpl_header),
+        _ => None,
+    }
+}
+
 /// Check if a long TPL header indicates encryption.
 fn is_long_tpl_encrypted(app_data: &[u8]) -> bool {
     if app_data.len() < 13 {
diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 6f02667..3d04a7f 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1305,12 +1305,22 @@ fn replace_encrypted_payload_segments(
     display_data: &[u8],
 ) {
     let mut rewritten = Vec::with_capacity(segments.len());
+    let long_tpl_header = segments
+        .iter()
+        .find(|segment| segment.kind == crate::annotate::SegmentKind::CiField)
+        .and_then(|segment| display_data.get(segment.start..))
+        .and_then(crate::annotate::long_tpl_header);
 
     for segment in segments.drain(..) {
         if segment.kind == crate::annotate::SegmentKind::EncryptedPayload {
             let before_len = rewritten.len();
             if let Some(data) = display_data.get(segment.start..segment.end) {
-                crate::annotate::annotate_data_records(&mut rewritten, segment.start, data);
+                crate::annotate::annotate_data_records(
+                    &mut rewritten,
+                    segment.start,
+                    data,
+                    long_tpl_header.as_ref(),
+                );
             }
             if rewritten.len() == before_len {
                 rewritten.push(segment);
-- 
2.43.0


From 4ea769fe3332f0680b9fa295014f6f26d1d8811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:29 +0000
Subject: [PATCH 61/61] fix: read decimal records in the byte order of the
 telegram in XML

---
 src/rscada_xml.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index fa0181c..6cbc038 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -295,7 +295,7 @@ fn render_wireless_variable(
     out.push_str("    </SlaveInformation>\n\n");
     if let Some(records) = records {
         for (index, record) in records.clone().flatten().enumerate() {
-            out.push_str(&render_variable_record(index, &record));
+            out.push_str(&render_variable_record(index, &record, false));
         }
     }
     out.push_str("</MBusData>\n");
@@ -313,7 +313,7 @@ fn render_variable(
 
     if let Some(records) = records {
         for (i, record) in records.clone().flatten().enumerate() {
-            out.push_str(&render_variable_record(i, &record));
+            out.push_str(&render_variable_record(i, &record, header.lsb_order));
         }
     }
 
@@ -385,9 +385,13 @@ struct NormalizedRecord {
     value: DecodedValue,
 }
 
-fn render_variable_record(index: usize, record: &user_data::data_record::DataRecord) -> String {
+fn render_variable_record(
+    index: usize,
+    record: &user_data::data_record::DataRecord,
+    lsb_order: bool,
+) -> String {
     let mut out = format!("    <DataRecord id=\"{}\">\n", index);
-    if let Some(normalized) = normalize_record(record) {
+    if let Some(normalized) = normalize_record(record, lsb_order) {
         out.push_str(&format!(
             "        <Function>{}</Function>\n",
             xml_encode(&normalized.function)
@@ -421,7 +425,10 @@ fn render_variable_record(index: usize, record: &user_data::data_record::DataRec
     out
 }
 
-fn normalize_record(record: &user_data::data_record::DataRecord) -> Option<NormalizedRecord> {
+fn normalize_record(
+    record: &user_data::data_record::DataRecord,
+    lsb_order: bool,
+) -> Option<NormalizedRecord> {
     let dib = &record
         .data_record_header
         .raw_data_record_header
@@ -478,7 +485,12 @@ fn normalize_record(record: &user_data::data_record::DataRecord) -> Option<Norma
         .as_ref()
         .map(|chars| chars.iter().rev().collect());
 
-    let value = variable_value_decode(dif, vif, vifes.first().copied(), data).ok()?;
+    let mut data = data.to_vec();
+    if lsb_order && matches!(dif & 0x0F, 0x09..=0x0C | 0x0E) {
+        // the header announces BCD digits in the other byte order
+        data.reverse();
+    }
+    let value = variable_value_decode(dif, vif, vifes.first().copied(), &data).ok()?;
 
     let (unit, quantity, normalized_value) = match value {
         DecodedValue::Real(raw) => {
-- 
2.43.0

