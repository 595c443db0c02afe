From 0150c731e75d9884f2a1fa1a35003a50798cb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 01/10] fix: StatusCode::is_err classifies UNKNOWN_ERROR (0x80)
 as an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..9b1ff97 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -47,7 +47,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode::UNKNOWN_ERROR
     }
 }
 
-- 
2.43.0


From 9507bb87dd134ba76a8660d889a51988b7b9879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 02/10] fix: VarInt::decompress reports an oversized mantissa
 as MantissaTooLarge

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From 0a36ad077ed3422324d81a6c6e4d656916def8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 03/10] fix: read_array drops exactly the elements read so far
 when one fails

---
 dash7/src/utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..5e3bcdf 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -189,7 +189,6 @@ where
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0


From 818a8522f954f5509055be95dca3fed653eccbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 04/10] fix: decoding from bytes no longer prints debug output
 to stdout

---
 dash7/src/utils.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 5e3bcdf..433266b 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,10 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
 
     Ok((pad_rest(input, reader.bits_read), value))
 }
-- 
2.43.0


From 628942504a3c05ad656bdb451700695b17650a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 05/10] fix: TxStatus operand puts the opcode in the low 6 bits
 of its first byte

---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 65d3ebf97d1593ed1106db894164ff3248496475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 06/10] fix: StringTokenSearch reads a mask only when the mask
 flag is set

---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 50976e13e6d9b1ec2acb3ebbe3af7810b38921f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 07/10] fix: decoding an action counts its first byte once

---
 dash7/src/app/action.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..3610a7f 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -167,8 +167,11 @@ impl<'a> DekuReader<'a, ()> for Action {
         // read the opcode
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
-        // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        // seek back to the beginning (1 byte), and don't count that byte twice
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        reader.bits_read -= 8;
 
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
-- 
2.43.0


From 53d87715b42a52add89b7e20e59330b5f71071e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 08/10] fix: command decoding detects the end of input exactly,
 and counts no peeked byte

---
 dash7/src/app/command.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..ff2f82c 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -50,7 +50,7 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? && !Self::at_end(reader)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
@@ -62,6 +62,33 @@ impl<'a> DekuReader<'a, u32> for Command {
 }
 
 impl Command {
+    /// Whether all input has been consumed. Doesn't consume or count any input itself.
+    fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
+    where
+        R: no_std_io::Read + no_std_io::Seek,
+    {
+        if !reader.rest().is_empty() {
+            return Ok(false);
+        }
+
+        // Drop an exhausted bit buffer: `Reader::end` would mistake it for pending input
+        reader
+            .seek_relative(0)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+
+        let bits_read = reader.bits_read;
+        if reader.end() {
+            return Ok(true);
+        }
+
+        // `Reader::end` buffers and counts the byte it has peeked at, so give that back
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
+        reader.bits_read = bits_read;
+        Ok(false)
+    }
+
     pub fn from_reader<'a, R>(input: (&'a mut R, usize)) -> Result<(usize, Self), DekuError>
     where
         R: no_std_io::Read + no_std_io::Seek,
-- 
2.43.0


From 6a98ed56a26741593af495165c0a00c5bd8957d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 09/10] fix: the subiot_v0_0 variant compiles again (interface
 status without length field)

---
 dash7/src/app/operation/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index 9b1ff97..d692d88 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -344,7 +344,6 @@ impl Into<Status> for InterfaceStatusOperation {
 }
 
 impl InterfaceStatusOperation {
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn read<'a, R>(
         reader: &mut Reader<'a, R>,
         interface_type: InterfaceType,
@@ -364,7 +363,6 @@ impl InterfaceStatusOperation {
         InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
     }
 
-    #[cfg(not(feature = "subiot_v0_0"))]
     pub fn write<W>(writer: &mut Writer<W>, status: &InterfaceStatus) -> Result<(), DekuError>
     where
         W: no_std_io::Write + no_std_io::Seek,
@@ -376,7 +374,7 @@ impl InterfaceStatusOperation {
 
         // Subiot v0.0 was missing the length field
         #[cfg(feature = "subiot_v0_0")]
-        return DekuWriter::to_writer(status, writer, (interface_type.try_into()?, vec_size));
+        return DekuWriter::to_writer(status, writer, (status.deku_id()?, vec_size));
 
         #[cfg(not(feature = "subiot_v0_0"))]
         return write_length_prefixed(writer, status, (status.deku_id().unwrap(), vec_size));
-- 
2.43.0


From 0a59bde32725aa9dd11d99e657c8520582bbc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:24 +0000
Subject: [PATCH 10/10] fix: a length that does not fit 32 bits is no longer
 truncated

---
 dash7/src/app/operation/length.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/length.rs b/dash7/src/app/operation/length.rs
index 29ca822..8eba747 100644
--- a/dash7/src/app/operation/length.rs
+++ b/dash7/src/app/operation/length.rs
@@ -33,7 +33,8 @@ impl Into<usize> for Length {
 
 impl From<usize> for Length {
     fn from(value: usize) -> Self {
-        Self(value as u32)
+        // a size that does not fit is not a valid length either: keep it one, instead of wrapping around
+        Self(core::cmp::min(value, u32::MAX as usize) as u32)
     }
 }
 
-- 
2.43.0

