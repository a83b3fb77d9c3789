From b42c3491da053d6fc577fd5213835135eaa5f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 01/23] fix: report differing signing block size fields as an
 error instead of asserting

---
 src/signing_block/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 1ef991c..03c7b53 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -535,7 +535,6 @@ impl SigningBlock {
                 }
             };
         let end_block_size = u64::from_le_bytes(create_fixed_buffer_8(end_size)) as usize;
-        debug_assert_eq!(start_block_size, end_block_size);
         if start_block_size != end_block_size {
             return Err(format!(
                 "Error: start_block_size {} is different from end_block_size {}",
-- 
2.43.0


From 6caff0c3f6cc82bd736c4acd79a40fdc84b48bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 02/23] fix: from_u8 no longer underflows on a misplaced magic
 or a too small block size

---
 src/signing_block/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 03c7b53..98103d7 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -619,7 +619,10 @@ impl SigningBlock {
                 }
             };
             if magic == MAGIC {
-                let size_part = match data.get(start_magic - SIZE_UINT64..start_magic) {
+                let size_part = match start_magic
+                    .checked_sub(SIZE_UINT64)
+                    .and_then(|start| data.get(start..start_magic))
+                {
                     Some(v) => v,
                     None => {
                         return Err(format!(
@@ -638,8 +641,7 @@ impl SigningBlock {
                     ));
                 }
 
-                let start_full_block = match start_magic.checked_sub(size - MAGIC_LEN + SIZE_UINT64)
-                {
+                let start_full_block = match end_magic.checked_sub(size + SIZE_UINT64) {
                     Some(v) => v,
                     None => {
                         return Err(format!(
-- 
2.43.0


From 8655642c62613d1401e9fa63353317b14fc6043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 03/23] fix: padding error message no longer underflows when
 there is no room for a padding block

---
 src/signing_block/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 98103d7..97cdca4 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -292,7 +292,7 @@ impl SigningBlock {
                         return Err(std::io::Error::other(
                             format!(
                                 "Error: remaining size {} is too low to add padding block - try to manually pad the inner block",
-                                4096 - v - mem::size_of::<u32>() - mem::size_of::<u64>()
+                                4096 - v
                             ),
                         ));
                     }
-- 
2.43.0


From c53cb34f78f73154a3380bf252f4cb888ea83308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 04/23] fix: do not preallocate ELF section entries from an
 unchecked count

---
 src/signing_block/elf_section_info.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signing_block/elf_section_info.rs b/src/signing_block/elf_section_info.rs
index adef9e9..73d2dd7 100644
--- a/src/signing_block/elf_section_info.rs
+++ b/src/signing_block/elf_section_info.rs
@@ -132,7 +132,7 @@ impl ElfSectionInfo {
     /// Returns error if parsing fails
     pub fn parse(size: usize, id: u32, data: &mut MyReader) -> Result<Self, String> {
         let section_count = data.read_u32()?;
-        let mut sections = Vec::with_capacity(section_count as usize);
+        let mut sections = Vec::new();
         for _ in 0..section_count {
             sections.push(SectionEntry::parse(data)?);
         }
-- 
2.43.0


From 54ea8c6b00f1322b88ad0ef66d42f95868f6b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:13 +0000
Subject: [PATCH 05/23] fix: nested elements of a signer must fit the size of
 their container

---
 src/common.rs                  | 24 ++++++++++++++++++------
 src/signing_block/scheme_v2.rs |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 3fede1c..1e663cc 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -41,6 +41,12 @@ impl Digest {
         let algo = Algorithms::from(signature_algorithm_id);
         let digest_size = data.read_size()?;
         let digest = data.get_to(digest_size)?.to_vec();
+        if digest_size.checked_add(8) != Some(size) {
+            return Err(format!(
+                "Error: digest entry size {} inconsistent with digest length {}",
+                size, digest_size
+            ));
+        }
         Ok(Self {
             size,
             signature_algorithm_id: algo,
@@ -153,8 +159,8 @@ impl Certificates {
             size: size_certificates,
             certificates_data: Vec::new(),
         };
-        let pos_max_cert = data.get_pos() + size_certificates;
-        while data.get_pos() < pos_max_cert {
+        let data = &mut data.as_slice(size_certificates)?;
+        while data.get_pos() < data.len() {
             certificates
                 .certificates_data
                 .push(Certificate::parse(data)?);
@@ -279,8 +285,8 @@ impl Signatures {
         if size == 0 {
             return Ok(signatures);
         }
-        let max_signatures = data.get_pos() + size;
-        while data.get_pos() < max_signatures {
+        let data = &mut data.as_slice(size)?;
+        while data.get_pos() < data.len() {
             signatures.signatures_data.push(Signature::parse(data)?);
         }
         Ok(signatures)
@@ -336,6 +342,12 @@ impl Signature {
         let algo = Algorithms::from(signature_algorithm_id);
         let signature_size = data.read_size()?;
         let signature = data.get_to(signature_size)?.to_vec();
+        if signature_size.checked_add(8) != Some(size) {
+            return Err(format!(
+                "Error: signature entry size {} inconsistent with signature length {}",
+                size, signature_size
+            ));
+        }
         Ok(Self {
             size,
             signature_algorithm_id: algo,
@@ -394,8 +406,8 @@ impl AdditionalAttributes {
             size: size_additional_attributes,
             additional_attributes_data: Vec::new(),
         };
-        let max_pos_attributes = data.get_pos() + size_additional_attributes;
-        while data.get_pos() < max_pos_attributes {
+        let data = &mut data.as_slice(size_additional_attributes)?;
+        while data.get_pos() < data.len() {
             additional_attributes
                 .additional_attributes_data
                 .push(AdditionalAttribute::parse(data)?);
diff --git a/src/signing_block/scheme_v2.rs b/src/signing_block/scheme_v2.rs
index 6363254..9960397 100644
--- a/src/signing_block/scheme_v2.rs
+++ b/src/signing_block/scheme_v2.rs
@@ -122,6 +122,7 @@ impl Signer {
     /// Returns a string if the parsing fails.
     pub fn parse(data: &mut MyReader) -> Result<Self, String> {
         let size_one_signer = data.read_size()?;
+        let data = &mut data.as_slice(size_one_signer)?;
         let signed_data = SignedData::parse(data)?;
         let signatures = Signatures::parse(data)?;
         let pub_key = PubKey::parse(data)?;
-- 
2.43.0


From 94b3b7803ad355d73061c89eaf4279f6c56bfc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:13 +0000
Subject: [PATCH 06/23] fix: reject sub-blocks holding bytes that parsing would
 silently drop

---
 src/signing_block/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/signing_block/mod.rs b/src/signing_block/mod.rs
index 97cdca4..d244206 100644
--- a/src/signing_block/mod.rs
+++ b/src/signing_block/mod.rs
@@ -158,6 +158,7 @@ impl ValueSigningBlock {
             }
         };
         let block_value = &mut data.as_slice(value_length)?;
+        let raw_value = block_value.to_vec();
 
         let block_to_add = match pair_id {
             SIGNATURE_SCHEME_V2_BLOCK_ID => Self::SignatureSchemeV2Block(SignatureSchemeV2::parse(
@@ -178,6 +179,16 @@ impl ValueSigningBlock {
                 data: block_value.to_vec(),
             }),
         };
+
+        // Signatures are checked over the re-serialized structures: reject any encoding
+        // carrying bytes that the structures do not represent
+        let header_size = SIZE_UINT64 + mem::size_of::<u32>();
+        if block_to_add.to_u8().get(header_size..) != Some(raw_value.as_slice()) {
+            return Err(format!(
+                "Error: sub-block 0x{:08x} is not canonically encoded",
+                pair_id
+            ));
+        }
         Ok(block_to_add)
     }
 
-- 
2.43.0


From 777e84c5eb6db0350539ce3f2c504a3680ddc678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 07/23] fix: report a central directory offset beyond the end
 record as an error

---
 src/file_formats/module/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index e436a67..edb9fa3 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -85,7 +85,7 @@ impl Module {
                 // The signing block is located BEFORE the Central Directory, not at the file end
                 // Structure: [ZIP Content] → [Signing Block] → [Central Directory] → [EOCD]
                 let eocd = self.find_eocd()?;
-                let cd_offset = eocd.cd_offset as usize;
+                let cd_offset = checked_cd_offset(&eocd)?;
 
                 // Calculate end_offset: how far from file end is the Central Directory start
                 // This tells from_reader to stop searching at the Central Directory position
@@ -283,7 +283,7 @@ impl Module {
                 let err_msg = e.to_string();
                 if err_msg.contains("Magic not found") || err_msg.contains("Module is raw") {
                     // No signing block - normal case for unsigned modules
-                    let stop_content = eocd.cd_offset as usize;
+                    let stop_content = checked_cd_offset(&eocd)?;
                     Ok(FileOffsets::without_signature(
                         stop_content,
                         eocd.file_offset,
@@ -457,3 +457,17 @@ impl Module {
         Ok(())
     }
 }
+
+/// Central Directory offset of the EOCD, which must not lie behind the EOCD itself
+/// # Errors
+/// Returns an error if the offset is out of range (e.g. a ZIP64 placeholder)
+fn checked_cd_offset(eocd: &EndOfCentralDirectoryRecord) -> Result<usize, std::io::Error> {
+    let cd_offset = eocd.cd_offset as usize;
+    if cd_offset > eocd.file_offset {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Central Directory offset is beyond the End of Central Directory",
+        ));
+    }
+    Ok(cd_offset)
+}
-- 
2.43.0


From 4d44817cb01fbc911c4ab1e12f03cc201a0e6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 08/23] fix: a module's signing block must directly precede the
 central directory

---
 src/file_formats/module/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index edb9fa3..8ffb1b4 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -11,6 +11,7 @@ use std::{
     path::PathBuf,
 };
 
+use crate::signing_block::{MAGIC, MAGIC_LEN};
 use crate::SigningBlock;
 use zip::{find_eocd, EndOfCentralDirectoryRecord, FileOffsets};
 
@@ -91,7 +92,21 @@ impl Module {
                 // This tells from_reader to stop searching at the Central Directory position
                 let end_offset = self.file_len.saturating_sub(cd_offset);
 
-                let file = File::open(&self.path)?;
+                let mut file = File::open(&self.path)?;
+
+                // The signing block ends right where the Central Directory starts. A magic found
+                // anywhere else (e.g. inside a stored entry) is not the signing block.
+                let mut magic = [0u8; MAGIC_LEN];
+                if let Some(magic_offset) = cd_offset.checked_sub(MAGIC_LEN) {
+                    file.seek(std::io::SeekFrom::Start(magic_offset as u64))?;
+                    file.read_exact(&mut magic)?;
+                }
+                if magic != *MAGIC {
+                    return Err(std::io::Error::other(
+                        "Magic not found before the Central Directory",
+                    ));
+                }
+
                 let sig = SigningBlock::from_reader(file, self.file_len, end_offset)?;
                 Ok(sig)
             }
-- 
2.43.0


From c67507251958e01b5a65aff6f06e445379cea828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 09/23] fix: keep bytes following the end record when signing
 and stripping

---
 src/file_formats/module/mod.rs | 34 +++++++++++++++++++++-------------
 src/signable.rs                |  8 +++++++-
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index 8ffb1b4..a116248 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -360,19 +360,27 @@ impl Module {
 
         let eocd_serialized = eocd.to_u8();
 
-        let end_without_sig =
-            match full_raw_file.get(end_sig..(full_raw_file.len() - eocd_serialized.len())) {
-                Some(data) => data,
-                None => {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::InvalidData,
-                        "Invalid end signature",
-                    ))
-                }
-            };
-
-        let module_without_signature =
-            [start_without_sig, end_without_sig, &eocd_serialized].concat();
+        let end_without_sig = match full_raw_file.get(end_sig..eocd.file_offset) {
+            Some(data) => data,
+            None => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    "Invalid end signature",
+                ))
+            }
+        };
+        // bytes following the EOCD, if any
+        let trailing = full_raw_file
+            .get(eocd.file_offset + eocd_serialized.len()..)
+            .unwrap_or_default();
+
+        let module_without_signature = [
+            start_without_sig,
+            end_without_sig,
+            &eocd_serialized,
+            trailing,
+        ]
+        .concat();
 
         Ok(module_without_signature)
     }
diff --git a/src/signable.rs b/src/signable.rs
index 3309b75..13b44bc 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -380,7 +380,13 @@ impl Signable for Module {
         eocd.cd_offset = new_cd_offset as u32;
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
-        writer.write_all(&eocd.to_u8())?;
+        let eocd_bytes = eocd.to_u8();
+        writer.write_all(&eocd_bytes)?;
+        // bytes following the EOCD are covered by the digest and must be kept
+        let trailing = raw_bytes
+            .get(eocd_offset + eocd_bytes.len()..)
+            .unwrap_or_default();
+        writer.write_all(trailing)?;
         Ok(())
     }
 }
-- 
2.43.0


From 2989aaeec904ad1d1acb26aa521c05d5e793d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:28 +0000
Subject: [PATCH 10/23] fix: refuse to sign when the central directory offset
 would exceed 32 bits

---
 src/signable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signable.rs b/src/signable.rs
index 13b44bc..536506b 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -377,7 +377,8 @@ impl Signable for Module {
             .ok_or_else(|| SignableError::Parse("签名块过大".to_string()))?;
 
         eocd.file_offset = eocd_offset + signing_block_bytes.len();
-        eocd.cd_offset = new_cd_offset as u32;
+        eocd.cd_offset = u32::try_from(new_cd_offset)
+            .map_err(|_| SignableError::Parse("签名块过大".to_string()))?;
 
         debug_assert_eq!(cd_size + eocd_size + cd_offset, raw_bytes.len());
         let eocd_bytes = eocd.to_u8();
-- 
2.43.0


From feaf2f7bddb3e41e3099448dc2fd320a320cefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:22 +0000
Subject: [PATCH 11/23] fix: keep a module's in-memory signature apart from the
 file it was read from

digest, write_with_signature and get_raw_module mixed offsets of the file with
those of the in-memory block: digests changed after sign_v2, re-signing and
writing a module opened with Module::new lost data.
---
 src/file_formats/module/mod.rs | 97 ++++++++++++++--------------------
 src/signable.rs                |  8 +--
 2 files changed, 44 insertions(+), 61 deletions(-)

diff --git a/src/file_formats/module/mod.rs b/src/file_formats/module/mod.rs
index a116248..750c20e 100644
--- a/src/file_formats/module/mod.rs
+++ b/src/file_formats/module/mod.rs
@@ -7,12 +7,12 @@ pub mod digest;
 
 use std::{
     fs::{read, File},
-    io::{copy, Read, Seek, Write},
+    io::{Read, Seek, Write},
     path::PathBuf,
 };
 
 use crate::signing_block::{MAGIC, MAGIC_LEN};
-use crate::SigningBlock;
+use crate::{Signable, SigningBlock};
 use zip::{find_eocd, EndOfCentralDirectoryRecord, FileOffsets};
 
 #[cfg(feature = "hash")]
@@ -265,32 +265,46 @@ impl Module {
         find_eocd(&mut file, self.file_len)
     }
 
+    /// The Module as stored on disk, without the in-memory signing block
+    pub(crate) fn on_disk(&self) -> Self {
+        Self {
+            raw: self.raw,
+            path: self.path.clone(),
+            file_len: self.file_len,
+            sig: None,
+        }
+    }
+
     /// Get the offsets of the Module file.
+    ///
+    /// With an in-memory signing block (see [`Module::sign_v2`]) these are the offsets of the file
+    /// that [`Module::write_with_signature`] produces.
+    ///
     /// # Errors
     /// Returns an error if the offsets cannot be determined or if the signing block is corrupted.
     /// Note: A module without a signing block is handled normally (returns offsets without signature).
     /// However, a corrupted signing block will return an error.
     pub fn get_offsets(&self) -> Result<FileOffsets, std::io::Error> {
+        if let Some(ref sig) = self.sig {
+            let stored = self.on_disk().get_offsets()?;
+            let start_cd = stored.stop_content + sig.get_full_size();
+            let stop_cd = start_cd + (stored.stop_cd - stored.start_cd);
+            let stop_eocd = stop_cd + (stored.stop_eocd - stored.start_eocd);
+            return Ok(FileOffsets::new(
+                stored.stop_content,
+                start_cd,
+                stop_cd,
+                stop_eocd,
+            ));
+        }
         let eocd = self.find_eocd()?;
         match self.get_signing_block() {
-            Ok(sig) => {
-                let file_len = if self.raw {
-                    self.file_len + sig.get_full_size()
-                } else {
-                    self.file_len
-                };
-                let stop_cd = if self.raw {
-                    eocd.file_offset + sig.get_full_size()
-                } else {
-                    eocd.file_offset
-                };
-                Ok(FileOffsets::new(
-                    sig.file_offset_start,
-                    sig.file_offset_end,
-                    stop_cd,
-                    file_len,
-                ))
-            }
+            Ok(sig) => Ok(FileOffsets::new(
+                sig.file_offset_start,
+                sig.file_offset_end,
+                eocd.file_offset,
+                self.file_len,
+            )),
             Err(e) => {
                 // Distinguish between "no signature" and "corrupted signature"
                 // "Magic not found" means no signing block exists - this is normal for unsigned modules
@@ -321,7 +335,7 @@ impl Module {
     #[cfg(feature = "hash")]
     pub fn digest(&self, algo: &Algorithms) -> Result<Vec<u8>, std::io::Error> {
         let mut file = File::open(&self.path)?;
-        let offsets = self.get_offsets()?;
+        let offsets = self.on_disk().get_offsets()?;
         digest_module(&mut file, &offsets, algo)
     }
 
@@ -335,7 +349,7 @@ impl Module {
             return Ok(full_raw_file);
         }
 
-        let sig = self.get_signing_block()?;
+        let sig = self.on_disk().get_signing_block()?;
 
         let start_sig = sig.file_offset_start;
         let end_sig = sig.file_offset_end;
@@ -390,40 +404,8 @@ impl Module {
     /// Returns a string if the writing fails.
     pub fn write_with_signature<W: Write>(&self, writer: &mut W) -> Result<(), std::io::Error> {
         let sig = self.get_signing_block()?;
-        let offsets = self.get_offsets()?;
-        let mut eocd = self.find_eocd()?;
-        eocd.cd_offset = eocd
-            .cd_offset
-            .checked_add(sig.get_full_size() as u32)
-            .ok_or_else(|| {
-                std::io::Error::new(
-                    std::io::ErrorKind::InvalidData,
-                    "Invalid signing block: offset overflow when adding signature",
-                )
-            })?;
-        let oecd_serialized = eocd.to_u8();
-        let eocd_len = oecd_serialized.len();
-
-        // copy entries
-        let file_reader = File::open(&self.path)?;
-        let mut reader_entries = file_reader.take(offsets.stop_content as u64);
-        copy(&mut reader_entries, writer)?;
-
-        // copy signature block
-        writer.write_all(&sig.to_u8())?;
-
-        // copy zip central directory
-        let mut file_reader_end = File::open(&self.path)?;
-        let seek_end = (offsets.start_cd - sig.get_full_size()) as u64;
-        file_reader_end.seek(std::io::SeekFrom::Start(seek_end))?;
-        let take = (offsets.stop_eocd - offsets.start_cd - eocd_len) as u64;
-        let mut file_reader_end = file_reader_end.take(take);
-        copy(&mut file_reader_end, writer)?;
-
-        // copy end of central directory
-        writer.write_all(&oecd_serialized)?;
-
-        Ok(())
+        Signable::write_with_signature(&self.on_disk(), writer, &sig)
+            .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))
     }
 
     /// Sign the Module file with the given algorithm.
@@ -473,8 +455,7 @@ impl Module {
             SigningBlock::new_with_padding(vec![ValueSigningBlock::new_v2(Signers::new(vec![
                 one_signer,
             ]))])?;
-        let eocd = self.find_eocd()?;
-        signing_block.offset_by(eocd.cd_offset as usize);
+        signing_block.offset_by(self.on_disk().get_offsets()?.stop_content);
 
         self.sig = Some(signing_block);
         Ok(())
diff --git a/src/signable.rs b/src/signable.rs
index 536506b..18ea946 100644
--- a/src/signable.rs
+++ b/src/signable.rs
@@ -280,7 +280,7 @@ impl Signable for Module {
     }
 
     fn digest_regions(&self) -> Result<Vec<DigestRegion>, Self::Error> {
-        let offsets = Self::get_offsets(self)?;
+        let offsets = Self::get_offsets(&self.on_disk())?;
         Ok(vec![
             DigestRegion {
                 name: "zip_entries".to_string(),
@@ -328,10 +328,12 @@ impl Signable for Module {
 
         let signing_block_bytes = signing_block.to_u8();
 
-        let (raw_bytes, mut eocd) = match Self::get_signing_block(self) {
+        // only the block stored in the file matters here, not one held in memory
+        let stored = self.on_disk();
+        let (raw_bytes, mut eocd) = match Self::get_signing_block(&stored) {
             Ok(_) => {
                 // Existing valid signature - strip it via get_raw_module
-                let bytes = Self::get_raw_module(self)?;
+                let bytes = Self::get_raw_module(&stored)?;
                 let mut cursor = Cursor::new(&bytes);
                 let eocd = find_eocd(&mut cursor, bytes.len())?;
                 (bytes, eocd)
-- 
2.43.0


From 8b899ce9ef7f1aebdbc8b5b5d6b2d9ab1013223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 12/23] fix: digest whole chunks however the reader splits its
 data

---
 src/file_formats/elf/digest.rs    | 22 ++++++++++++++--------
 src/file_formats/module/digest.rs | 31 +++++++++++++++++--------------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index 947e502..910cecc 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -2,7 +2,7 @@
 
 #![cfg(feature = "elf")]
 
-use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom};
+use std::io::{self, Read, Seek, SeekFrom};
 
 use crate::signing_block::algorithms::Algorithms;
 
@@ -32,6 +32,15 @@ fn digest_final(chunks: Vec<Vec<u8>>, algo: &Algorithms) -> Vec<u8> {
     algo.hash(&final_chunk)
 }
 
+/// Read the next chunk: [`CHUNK_SIZE`] bytes, less only at the end of the data
+/// # Errors
+/// Returns an error if the data cannot be read
+fn read_chunk<R: Read>(reader: &mut R) -> Result<Vec<u8>, io::Error> {
+    let mut chunk = Vec::new();
+    reader.take(CHUNK_SIZE as u64).read_to_end(&mut chunk)?;
+    Ok(chunk)
+}
+
 /// Calculate digest for ELF sections
 ///
 /// # Arguments
@@ -55,17 +64,14 @@ pub fn digest_elf_sections<R: Read + Seek>(
     for (_name, offset, size) in sections {
         // Calculate chunked digest for each section
         file.seek(SeekFrom::Start(*offset))?;
-        let taker = file.take(*size);
-        let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
+        let mut taker = file.take(*size);
 
         loop {
-            let chunk = reader.fill_buf()?;
-            let length = chunk.len();
-            if length == 0 {
+            let chunk = read_chunk(&mut taker)?;
+            if chunk.is_empty() {
                 break;
             }
-            all_chunk_digests.push(digest_chunk(chunk, algo));
-            reader.consume(length);
+            all_chunk_digests.push(digest_chunk(&chunk, algo));
         }
 
         // Reset for next section
diff --git a/src/file_formats/module/digest.rs b/src/file_formats/module/digest.rs
index 382b72b..b454820 100644
--- a/src/file_formats/module/digest.rs
+++ b/src/file_formats/module/digest.rs
@@ -24,6 +24,15 @@ fn digest_chunk(chunk: &[u8], sig: &Algorithms) -> Vec<u8> {
     sig.hash(&data)
 }
 
+/// Read the next chunk: [`CHUNK_SIZE`] bytes, less only at the end of the data
+/// # Errors
+/// Returns an error if the data cannot be read
+fn read_chunk<R: Read>(reader: &mut R) -> Result<Vec<u8>, io::Error> {
+    let mut chunk = Vec::new();
+    reader.take(CHUNK_SIZE as u64).read_to_end(&mut chunk)?;
+    Ok(chunk)
+}
+
 /// Digest the contents of ZIP entries
 /// # Errors
 /// Returns an error if the file cannot be read
@@ -36,17 +45,14 @@ pub fn digest_zip_contents<R: Read + Seek>(
     let start = (start) as u64;
     file.seek(SeekFrom::Start(start))?;
     let next_offset = (size) as u64;
-    let taker = file.take(next_offset);
-    let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
+    let mut taker = file.take(next_offset);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let chunk = read_chunk(&mut taker)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
@@ -62,17 +68,14 @@ pub fn digest_central_directory<R: Read + Seek>(
 ) -> Result<Vec<Vec<u8>>, io::Error> {
     let next_offset = (start) as u64;
     file.seek(SeekFrom::Start(next_offset))?; // skip the signing block
-    let taker = file.take((size) as u64);
-    let mut reader = BufReader::with_capacity(CHUNK_SIZE, taker);
+    let mut taker = file.take((size) as u64);
     let mut digestives = Vec::new();
     loop {
-        let chunk = reader.fill_buf()?;
-        let length = chunk.len();
-        if length == 0 {
+        let chunk = read_chunk(&mut taker)?;
+        if chunk.is_empty() {
             break;
         }
-        digestives.push(digest_chunk(chunk, sig));
-        reader.consume(length);
+        digestives.push(digest_chunk(&chunk, sig));
     }
     Ok(digestives)
 }
-- 
2.43.0


From d0e7d1569ad5dc5a5c172a6c01b378b73cbff8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:36 +0000
Subject: [PATCH 13/23] fix: refuse to digest an ELF section that lies outside
 the file

---
 src/file_formats/elf/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 7c48044..12a858c 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -329,6 +329,16 @@ impl ElfFile {
                     name
                 )));
             }
+            let in_file = sh
+                .sh_offset
+                .checked_add(sh.sh_size)
+                .is_some_and(|end| end <= self.data.len() as u64);
+            if !in_file {
+                return Err(ElfError::Value(format!(
+                    "section {} 超出文件范围，无法参与签名",
+                    name
+                )));
+            }
             sections.push((name.clone(), sh.sh_offset, sh.sh_size));
         }
         sections.sort_by_key(|(_, offset, _)| *offset);
-- 
2.43.0


From af878a221d88e495de8357fbef96a556ff90290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 14/23] fix: refuse an absurd alignment of the section name
 table instead of allocating it

---
 src/file_formats/elf/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 12a858c..0832036 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -27,6 +27,9 @@ pub const DEFAULT_SIGNED_SECTIONS: &[&str] = &[".text", ".rodata"];
 /// KSU signature section name
 pub const KSU_SIGN_SECTION: &str = ".ksu_sign";
 
+/// Largest alignment accepted for the section name table, which is relocated when signing
+const MAX_NAME_TABLE_ALIGN: usize = 64 * 1024;
+
 /// ELF-specific error type
 #[derive(Debug)]
 pub enum ElfError {
@@ -222,8 +225,11 @@ impl ElfFile {
             .get(shstrtab_index)
             .ok_or_else(|| ElfError::Value("缺少 section name 表".to_string()))?;
         let shstr_align = usize::try_from(shstrtab_header.sh_addralign)
-            .unwrap_or(1)
+            .unwrap_or(usize::MAX)
             .max(1);
+        if shstr_align > MAX_NAME_TABLE_ALIGN {
+            return Err(ElfError::Value("section name 表对齐过大".to_string()));
+        }
 
         if shstrtab_bytes.len() as u64 != shstrtab_header.sh_size {
             let new_offset = append_aligned(&mut output, &shstrtab_bytes, shstr_align);
-- 
2.43.0


From e4c1aa09362a7394d519bcdd8903203f4bac668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 15/23] fix: adding the signature section name must not rename
 other ELF sections

---
 src/file_formats/elf/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 0832036..48992dc 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -10,7 +10,7 @@ use std::path::PathBuf;
 
 use goblin::container::Ctx;
 use goblin::elf::header;
-use goblin::elf::section_header::{SectionHeader, SHT_NOBITS, SHT_PROGBITS};
+use goblin::elf::section_header::{SectionHeader, SHN_UNDEF, SHT_NOBITS, SHT_PROGBITS};
 use goblin::elf::Elf;
 use goblin::error::Error as GoblinError;
 use scroll::ctx::{IntoCtx, SizeWith};
@@ -214,6 +214,10 @@ impl ElfFile {
 
         let mut maybe_name_offset = existing_name_offset(&elf, KSU_SIGN_SECTION);
         if maybe_name_offset.is_none() {
+            // names are NUL-terminated, and offset 0 is the empty name
+            if shstrtab_bytes.last() != Some(&0) {
+                shstrtab_bytes.push(0);
+            }
             maybe_name_offset = Some(shstrtab_bytes.len());
             shstrtab_bytes.extend_from_slice(KSU_SIGN_SECTION.as_bytes());
             shstrtab_bytes.push(0);
@@ -396,6 +400,7 @@ fn load_shstrtab(elf: &Elf<'_>, data: &[u8]) -> Result<Vec<u8>, ElfError> {
     let shstr_hdr = elf
         .section_headers
         .get(shstrtab_index)
+        .filter(|_| shstrtab_index != SHN_UNDEF as usize)
         .ok_or_else(|| ElfError::Value("缺少 section name 表".to_string()))?;
     let start = shstr_hdr.sh_offset as usize;
     let end = start
-- 
2.43.0


From 9036dd85659bba80ee05baf63cd2ba490b8d5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 16/23] fix: the sign command keeps ELF signing blocks aligned
 and within the size limit

---
 src/cli/sign.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index c0b7876..562a0a2 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -6,7 +6,10 @@ use ksusig::{
     load_p12, load_pem, FileFormat, ModuleSigner, ModuleSignerConfig, SignableFile,
 };
 #[cfg(feature = "elf")]
-use ksusig::{signing_block::elf_section_info::ElfSectionInfo, ValueSigningBlock};
+use ksusig::{
+    signing_block::{elf_section_info::ElfSectionInfo, VERITY_PADDING_BLOCK_ID},
+    SigningBlock, ValueSigningBlock,
+};
 use std::fs::File;
 use std::io::{BufWriter, Write};
 use std::path::PathBuf;
@@ -187,10 +190,11 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
                 .map(|(name, offset, size)| (name.as_str(), *offset, *size))
                 .collect(),
         );
-        signing_block
-            .content
-            .push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
-        signing_block.recalculate_size();
+        // rebuild the block so that padding and size limit account for the section info
+        let mut content = signing_block.content;
+        content.retain(|block| block.id() != VERITY_PADDING_BLOCK_ID);
+        content.push(ValueSigningBlock::ElfSectionInfoBlock(section_info));
+        signing_block = SigningBlock::new_with_padding(content)?;
     }
 
     let signing_block_size = signing_block.to_u8().len();
-- 
2.43.0


From 0414fd62f53cbdc0b1150b9eeb0ce98f3b8b5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 17/23] fix: the sign command no longer truncates its output
 before the signed file is complete

---
 src/cli/sign.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cli/sign.rs b/src/cli/sign.rs
index 562a0a2..3db71b0 100644
--- a/src/cli/sign.rs
+++ b/src/cli/sign.rs
@@ -10,8 +10,6 @@ use ksusig::{
     signing_block::{elf_section_info::ElfSectionInfo, VERITY_PADDING_BLOCK_ID},
     SigningBlock, ValueSigningBlock,
 };
-use std::fs::File;
-use std::io::{BufWriter, Write};
 use std::path::PathBuf;
 
 /// Arguments for the sign command
@@ -205,9 +203,11 @@ pub fn execute(args: SignArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     // Write output file
     println!("Writing signed module...");
-    let mut writer = BufWriter::new(File::create(&args.output)?);
-    signable.write_with_signature(&mut writer, &signing_block)?;
-    writer.flush()?;
+    // Build the whole file first: the output may be the input itself, and a failure must not
+    // destroy an existing output
+    let mut signed = Vec::new();
+    signable.write_with_signature(&mut signed, &signing_block)?;
+    std::fs::write(&args.output, &signed)?;
 
     println!("✓ Signing successful!");
     println!("Output file: {}", args.output.display());
-- 
2.43.0


From f0806fc3422ad43059b8b1898c6b1ffe00ef96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 18/23] fix: a signer without any signature is not validly
 signed

---
 src/verifier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5177e15..6a509a2 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -695,8 +695,8 @@ impl SignatureVerifier {
                         }
                     };
 
-                    // Verify each signature
-                    let mut sig_valid = true;
+                    // Verify each signature (there must be at least one)
+                    let mut sig_valid = !signer.signatures.signatures_data.is_empty();
                     for sig in signer.signatures.signatures_data.iter() {
                         let algo = &sig.signature_algorithm_id;
 
@@ -848,8 +848,8 @@ impl SignatureVerifier {
                     }
                 };
 
-                // Verify each signature and digest
-                let mut sig_valid = true;
+                // Verify each signature and digest (there must be at least one)
+                let mut sig_valid = !stamp_block.signatures.signatures_data.is_empty();
                 let mut digest_verified = false;
 
                 for sig in &stamp_block.signatures.signatures_data {
-- 
2.43.0


From 8c06ef84fad03084e098bf6ebb4c2db08aea7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 19/23] fix: verification is not valid when no signature is
 present at all

---
 src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 6a509a2..b20a66e 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -192,7 +192,7 @@ impl VerifyAllResult {
     /// - Certificate chain is valid
     /// - Certificate is trusted (signed by a trusted root)
     ///
-    /// Blocks that are not present (NoSignature) are ignored.
+    /// Blocks that are not present (NoSignature) are ignored, but at least one must be present.
     ///
     /// **Important**: If you call verification without a digest context, `digest_valid`
     /// will be false and this method will return false. Use `verify_all_with_digest`
@@ -203,7 +203,7 @@ impl VerifyAllResult {
             || matches!(&self.v2, Err(VerifyError::NoSignature));
         let stamp_ok = matches!(&self.source_stamp, Ok(r) if r.signature_valid && r.digest_valid && r.cert_chain_valid && r.is_trusted)
             || matches!(&self.source_stamp, Err(VerifyError::NoSignature));
-        v2_ok && stamp_ok
+        (self.has_v2() || self.has_source_stamp()) && v2_ok && stamp_ok
     }
 
     /// Check if V2 signature exists (regardless of validity)
-- 
2.43.0


From 24bcc104d5dcf99790e42f0e019fed2b0335ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:39 +0000
Subject: [PATCH 20/23] fix: a digest over a region the reader does not reach
 is an error

---
 src/file_formats/elf/digest.rs    | 3 +++
 src/file_formats/module/digest.rs | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/file_formats/elf/digest.rs b/src/file_formats/elf/digest.rs
index 910cecc..da04249 100644
--- a/src/file_formats/elf/digest.rs
+++ b/src/file_formats/elf/digest.rs
@@ -73,6 +73,9 @@ pub fn digest_elf_sections<R: Read + Seek>(
             }
             all_chunk_digests.push(digest_chunk(&chunk, algo));
         }
+        if taker.limit() != 0 {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
 
         // Reset for next section
         file.seek(SeekFrom::Start(0))?;
diff --git a/src/file_formats/module/digest.rs b/src/file_formats/module/digest.rs
index b454820..5dc6d7b 100644
--- a/src/file_formats/module/digest.rs
+++ b/src/file_formats/module/digest.rs
@@ -54,6 +54,9 @@ pub fn digest_zip_contents<R: Read + Seek>(
         }
         digestives.push(digest_chunk(&chunk, sig));
     }
+    if taker.limit() != 0 {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     Ok(digestives)
 }
 
@@ -77,6 +80,9 @@ pub fn digest_central_directory<R: Read + Seek>(
         }
         digestives.push(digest_chunk(&chunk, sig));
     }
+    if taker.limit() != 0 {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     Ok(digestives)
 }
 
@@ -94,6 +100,9 @@ pub fn digest_end_of_central_directory<R: Read + Seek>(
     file.seek(SeekFrom::Start(next_offset))?;
     let mut eocd_buff = Vec::with_capacity(eocd_size);
     file.read_to_end(&mut eocd_buff)?;
+    if eocd_buff.len() < eocd_size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     // little manipulation to change the offset of the central directory offset
     let first_part = match eocd_buff.get(..16) {
         Some(data) => data,
-- 
2.43.0


From ae90c7d5679d634c66170113c5a69ee6380e461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:21 +0000
Subject: [PATCH 21/23] fix: the ELF digest does not depend on the order
 sections at one offset are requested in

---
 src/file_formats/elf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_formats/elf/mod.rs b/src/file_formats/elf/mod.rs
index 48992dc..2a31fb9 100644
--- a/src/file_formats/elf/mod.rs
+++ b/src/file_formats/elf/mod.rs
@@ -351,7 +351,7 @@ impl ElfFile {
             }
             sections.push((name.clone(), sh.sh_offset, sh.sh_size));
         }
-        sections.sort_by_key(|(_, offset, _)| *offset);
+        sections.sort_by_key(|(_, offset, size)| (*offset, *size));
         Ok(sections)
     }
 }
-- 
2.43.0


From a78e425f64d89cc29113c5655d42c037d65625ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:47 +0000
Subject: [PATCH 22/23] fix: report a malformed PEM block in a certificate file
 instead of dropping the chain

---
 src/keystore.rs | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/keystore.rs b/src/keystore.rs
index b79599e..30d7b9b 100644
--- a/src/keystore.rs
+++ b/src/keystore.rs
@@ -191,22 +191,6 @@ fn parse_private_key_pem(
     ))
 }
 
-/// Parse a certificate from PEM format and return DER bytes
-/// # Errors
-/// Returns an error if the PEM data is invalid
-fn parse_certificate_pem(pem_data: &[u8]) -> Result<Vec<u8>, KeystoreError> {
-    let pem = pem::parse(pem_data).map_err(|e| KeystoreError::PemError(e.to_string()))?;
-
-    if pem.tag() != "CERTIFICATE" {
-        return Err(KeystoreError::CertError(format!(
-            "Expected CERTIFICATE, got {}",
-            pem.tag()
-        )));
-    }
-
-    Ok(pem.into_contents())
-}
-
 /// Parse certificate chain from PEM format
 ///
 /// Supports both single certificate and certificate chain files.
@@ -254,11 +238,7 @@ fn parse_certificate_chain_pem(pem_data: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>
 
             Ok((end_entity, chain))
         }
-        Err(_) => {
-            // Fallback: try to parse as single certificate
-            let cert = parse_certificate_pem(pem_data)?;
-            Ok((cert, Vec::new()))
-        }
+        Err(e) => Err(KeystoreError::PemError(e.to_string())),
     }
 }
 
-- 
2.43.0


From 57f005b5d4fd1727159a277f05af445cdad95ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:49 +0000
Subject: [PATCH 23/23] fix: refuse to dump the signable regions onto the input
 file

---
 src/cli/digest.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/digest.rs b/src/cli/digest.rs
index b520720..5edb9bd 100644
--- a/src/cli/digest.rs
+++ b/src/cli/digest.rs
@@ -127,6 +127,11 @@ fn dump_regions(
     regions: &[ksusig::DigestRegion],
     output_path: &PathBuf,
 ) -> Result<(), Box<dyn std::error::Error>> {
+    // Creating the output would truncate the file that is still to be read
+    if output_path.canonicalize().ok() == Some(input_path.canonicalize()?) {
+        return Err("Dump output must not be the input file".into());
+    }
+
     let mut input = File::open(input_path)?;
     let mut output = File::create(output_path)?;
 
-- 
2.43.0

