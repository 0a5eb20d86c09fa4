From 3dab38bc220ac535ece5408a715c2169e23f00a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 01/10] fix: extend_to must not touch bytes already in the
 output buffer

The length was patched at absolute offsets 4..6 and the checksum computed
over the whole buffer, so appending to a non-empty buffer corrupted both.
---
 ublox_derive/src/output.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..caa3f9a 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,8 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  // `out` may already hold data, the packet starts behind it.
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +483,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[start + 2..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From 4073f42e15a12639bd4981b869f5fe9147b48678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 02/10] fix: decode the TIM-TM2 time base instead of panicking

The two-bit field was masked but not shifted, so every time base except
'receiver' hit unreachable!(). The undefined value 3 is now refused when the
packet is validated.
---
 ublox/src/ubx_packets/packets.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..eca4e73 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2837,7 +2837,7 @@ struct TimTm2 {
     /// Channel (i.e. EXTINT) upon which the pulse was measured
     ch: u8,
     /// Flags
-    #[ubx(map_type = TimTm2Flags, from = TimTm2Flags)]
+    #[ubx(map_type = TimTm2Flags, from = TimTm2Flags, is_valid = TimTm2Flags::is_valid, may_fail)]
     flags: u8,
     /// Rising edge counter
     count: u16,
@@ -2862,6 +2862,11 @@ struct TimTm2 {
 pub struct TimTm2Flags(u8);
 
 impl TimTm2Flags {
+    /// Time base 3 is not defined by the protocol
+    const fn is_valid(raw: u8) -> bool {
+        (raw >> 3) & 0b11 != 0b11
+    }
+
     pub fn mode(&self) -> TimTm2Mode {
         if self.0 & 0b1 == 0 {
             TimTm2Mode::Single
@@ -2887,7 +2892,7 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-- 
2.43.0


From a02e6fb664b3561b40b3e939d36ecf2b88a50ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/10] fix: CFG-ITFM sub-fields must be read from and written
 to their own bits

The received config words were stored whole in each sub-field, and the antenna
setting was written over bits 0..2 instead of 12..14.
---
 ublox/src/ubx_packets/packets.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index eca4e73..7803877 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,14 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(
+            (cfg >> CfgItfmBbThreshold::POSITION) & CfgItfmBbThreshold::MASK,
+        );
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1017,14 +1022,16 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | ((self.antenna.into_raw() as u32) << 12)
     }
 }
 
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(
+            (cfg >> CfgItfmGeneralBits::POSITION) & CfgItfmGeneralBits::MASK,
+        );
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From ecca2ae9f485dfc26683bb941e36311ea25fc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 04/10] fix: convert ECEF centimetres to metres

10e-2 is 0.1, the factor from centimetres to metres is 0.01.
---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..0005e9e 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From 3fd48f7c77dff936a95f83c1371ecb55890111f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 05/10] fix: add the NAV-HPPOSLLH high precision height as
 millimetres, not metres

---
 ublox/src/ubx_packets/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 0005e9e..d62f641 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,8 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            // the high precision component is in millimeters
+            alt: packet.height_msl() + packet.height_hp_msl() * 1e-3,
         }
     }
 }
-- 
2.43.0


From beca5f4a63f7de87d195ecf4378bb15b8c5bf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 06/10] fix: refuse CFG-PRT UART modes that can't be
 represented

A received CFG-PRT with five or six data bits or a reserved parity code was
accepted, and then panicked in the mode accessor, Debug and Serialize.
---
 ublox/src/ubx_packets/packets.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 7803877..52a9840 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1883,7 +1883,7 @@ struct CfgPrtUart {
     portid: u8,
     reserved0: u8,
     tx_ready: u16,
-    #[ubx(map_type = UartMode)]
+    #[ubx(map_type = UartMode, from = UartMode::from, is_valid = UartMode::is_valid, may_fail)]
     mode: u32,
     baud_rate: u32,
     #[ubx(map_type = InProtoMask)]
@@ -1925,6 +1925,15 @@ impl UartMode {
     const fn into_raw(self) -> u32 {
         self.data_bits.into_raw() | self.parity.into_raw() | self.stop_bits.into_raw()
     }
+
+    /// Five and six data bits and the reserved parity codes can't be represented
+    const fn is_valid(mode: u32) -> bool {
+        matches!((mode >> DataBits::POSITION) & DataBits::MASK, 0b10 | 0b11)
+            && matches!(
+                (mode >> Parity::POSITION) & Parity::MASK,
+                0b000 | 0b001 | 0b100 | 0b101
+            )
+    }
 }
 
 impl From<u32> for UartMode {
-- 
2.43.0


From 4d5ffa4f8126663f4658207f48c683212574c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 07/10] fix: building a packet with a NaN in a signed scaled
 field must not panic

---
 ublox/src/ubx_packets/packets.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 52a9840..5de32e3 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2416,7 +2416,8 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i8(i8::max_value()).unwrap() {
             i8::max_value()
         } else {
-            x.to_i8().unwrap()
+            // only NaN is left without a value
+            x.to_i8().unwrap_or(0)
         }
     }
 
@@ -2427,7 +2428,8 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i16(i16::max_value()).unwrap() {
             i16::max_value()
         } else {
-            x.to_i16().unwrap()
+            // only NaN is left without a value
+            x.to_i16().unwrap_or(0)
         }
     }
 
@@ -2438,7 +2440,8 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         } else if x > T::from_i32(i32::MAX).unwrap() {
             i32::MAX
         } else {
-            x.to_i32().unwrap()
+            // only NaN is left without a value
+            x.to_i32().unwrap_or(0)
         }
     }
 
-- 
2.43.0


From d3c66133cf1c6b2175af149dfb7d52e0ab1ac605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 08/10] fix: AID-INI UTC time is YYMM and DDHHMMSS with months
 counted from one

The month was counted from zero and the day of month was missing.
---
 ublox/src/ubx_packets/packets.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 5de32e3..6e2379f 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1267,8 +1267,8 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms = tm.day() * 1000000 + tm.hour() * 10000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From f302901631eab3cbd87cbcac0d19555c50c67dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/10] fix: NAV-VELECEF z velocity is signed

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 6e2379f..e2e567d 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3541,7 +3541,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From a5e127021f56693bc1f6b1bcd98733b78d0d50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 10/10] fix: TIM-SVIN position variance is unsigned

---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e2e567d..050a1a8 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1505,7 +1505,7 @@ struct TimSvin {
     /// Current survey-in mean position ECEF Z coordinate
     mean_z: i32,
     /// Current survey-in mean position 3D variance
-    mean_v: i32,
+    mean_v: u32,
     /// Number of position observations used during survey-in
     obs: u32,
     /// Survey-in position validity flag, 1 = valid, otherwise 0
-- 
2.43.0

