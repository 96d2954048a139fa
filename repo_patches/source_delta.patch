From 8b341e6516a46acdf26a424de37f0bab50106030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 01/93] fix: don't report chained relocations for ELF
 relocation sections

When multiple relocation sections apply to the same section, calling
relocations() on one of those relocation sections returned the relocations
of the next relocation section in the chain.
---
 src/read/elf/section.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/section.rs b/src/read/elf/section.rs
index 0499625..39185e9 100644
--- a/src/read/elf/section.rs
+++ b/src/read/elf/section.rs
@@ -445,6 +445,9 @@ impl<'data, 'file, Elf: FileHeader, R: ReadRef<'data>> ElfSection<'data, 'file,
     /// Returns `None` if there are no relocations.
     /// Returns an error if there are multiple relocation sections that reference this section.
     pub fn elf_relocation_section_index(&self) -> read::Result<Option<SectionIndex>> {
+        if self.is_relocation_section() {
+            return Ok(None);
+        }
         let Some(relocation_index) = self.file.relocations.get(self.index) else {
             return Ok(None);
         };
@@ -497,6 +500,15 @@ impl<'data, 'file, Elf: FileHeader, R: ReadRef<'data>> ElfSection<'data, 'file,
         Ok(rela)
     }
 
+    // Relocation sections never have relocations that apply to them. Their entry
+    // in `RelocationSections` is the next relocation section in the same chain.
+    fn is_relocation_section(&self) -> bool {
+        matches!(
+            self.section.sh_type(self.file.endian),
+            elf::SHT_REL | elf::SHT_RELA | elf::SHT_CREL
+        )
+    }
+
     fn bytes(&self) -> read::Result<&'data [u8]> {
         self.section
             .data(self.file.endian, self.file.data.0)
@@ -676,8 +688,14 @@ where
     }
 
     fn relocations(&self) -> ElfSectionRelocationIterator<'data, 'file, Elf, R> {
+        let section_index = if self.is_relocation_section() {
+            // Not a valid index, so there are no relocations.
+            SectionIndex(usize::MAX)
+        } else {
+            self.index
+        };
         ElfSectionRelocationIterator {
-            section_index: self.index,
+            section_index,
             file: self.file,
             relocations: None,
         }
-- 
2.43.0


From 10799a26897ae609a88f4ec6ec9afd7d7bbafc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 02/93] fix: encode the symbol number of big-endian Mach-O
 relocations in the upper bits

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From cb019be5acdf44339882c20cd654db1697aa4b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 03/93] fix: treat an empty Mach-O exports trie as having no
 exports

---
 src/read/macho/exports_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..3702962 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -124,7 +124,8 @@ impl<'data> NodeIterator<'data> {
     pub(super) fn new(data: &'data [u8]) -> Self {
         NodeIterator {
             data,
-            first: true,
+            // The root node is omitted if there are no exports.
+            first: !data.is_empty(),
             stack: Vec::new(),
             name_buf: Vec::new(),
         }
-- 
2.43.0


From ef3d3a94bdcc129a5303361e4f0b626b9f28731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 04/93] fix: stop Mach-O exports trie iteration after an error

---
 src/read/macho/exports_trie.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 3702962..1e6dedd 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -170,6 +170,15 @@ impl<'data> NodeIterator<'data> {
     // - `Ok(Some(None))` if we don't have terminal data at the current node.
     // - `Ok(None)` if we've reached the end of the trie.
     fn next(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
+        let result = self.next_inner();
+        if result.is_err() {
+            // The position in the trie is no longer known.
+            self.stack.clear();
+        }
+        result
+    }
+
+    fn next_inner(&mut self) -> Result<Option<Option<ExportSymbol<'data>>>> {
         if self.first {
             self.first = false;
             // The root node is at offset 0.
-- 
2.43.0


From 823b9ca46b1f0e728e48cb1c38dd90a07c6f8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 05/93] fix: include the page offset in dyld cache relocations
 for slide info v2

---
 src/read/macho/dyld_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..27aa158 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -704,7 +704,7 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            offset: self.page_offset + offset,
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From e46b46d327c9b7aafa0db37c984994ed536d4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 06/93] fix: don't panic if the dyld cache slide info v2 delta
 mask is zero

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 27aa158..719964e 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift is too large if there is no delta mask.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From 00a424bf41505ff08ece24eaf067d748dd257e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 07/93] fix: read Mach-O section data from the section's own
 dyld subcache in compressed_data

---
 src/read/macho/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/section.rs b/src/read/macho/section.rs
index e0a0578..c59a9f3 100644
--- a/src/read/macho/section.rs
+++ b/src/read/macho/section.rs
@@ -181,7 +181,7 @@ where
     }
 
     fn compressed_data(&self) -> read::Result<CompressedData<'data>> {
-        self.compressed_file_range()?.data(self.file.data.0)
+        self.compressed_file_range()?.data(self.internal.data)
     }
 
     #[inline]
-- 
2.43.0


From ff4dbfaa5088c48a64f26a1a260943766ed41a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 08/93] fix: reject zlib data that is truncated or longer than
 the declared size

---
 src/read/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index fdb4ae1..f5c0a83 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -1336,7 +1336,7 @@ impl<'data> CompressedData<'data> {
                 match self.format {
                     CompressionFormat::Zlib => {
                         let mut decompress = flate2::Decompress::new(true);
-                        decompress
+                        let status = decompress
                             .decompress_vec(
                                 self.data,
                                 &mut decompressed,
@@ -1344,6 +1344,10 @@ impl<'data> CompressedData<'data> {
                             )
                             .ok()
                             .read_error("Invalid zlib compressed data")?;
+                        // The stream must not be truncated, or need more than `size` bytes.
+                        if status != flate2::Status::StreamEnd {
+                            return Err(Error("Invalid zlib compressed data"));
+                        }
                     }
                     CompressionFormat::Zstandard => {
                         let mut decoder = ruzstd::decoding::FrameDecoder::new();
-- 
2.43.0


From 1690d9b23ae543f216d99789c07ff57b1b39ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 09/93] fix: don't drop a symbol at the maximum address from
 the symbol map

---
 src/read/symbol_map.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/read/symbol_map.rs b/src/read/symbol_map.rs
index 3ec270a..4e0bd88 100644
--- a/src/read/symbol_map.rs
+++ b/src/read/symbol_map.rs
@@ -354,11 +354,11 @@ impl SymbolMapBuilder {
             // Unstable sort is okay because tuple includes index.
             all_symbols.sort_unstable();
 
-            let mut previous_address = !0;
+            let mut previous_address = None;
             for (address, _priority, _index, size, name) in all_symbols {
-                if address != previous_address {
+                if previous_address != Some(address) {
                     symbols.push(SymbolMapName::new(address, size, name));
-                    previous_address = address;
+                    previous_address = Some(address);
                 }
             }
 
-- 
2.43.0


From 1b649b6b47afa47c1a7ed389b641ae0d5918f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 10/93] fix: always write an empty string in a string table
 without other strings

---
 src/write/string.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/write/string.rs b/src/write/string.rs
index 0eb2b4a..56a8cdb 100644
--- a/src/write/string.rs
+++ b/src/write/string.rs
@@ -140,18 +140,18 @@ impl<'a> StringTable<'a> {
 
         self.offsets = vec![0; ids.len()];
         let mut offset = u64::from(base);
-        let mut previous = &[][..];
+        let mut previous: Option<&[u8]> = None;
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
             let len = string.len() as u64 + 1;
-            if previous.ends_with(string) {
+            if previous.is_some_and(|previous| previous.ends_with(string)) {
                 self.offsets[id] = (offset - len) as u32;
             } else {
                 self.offsets[id] = offset as u32;
                 w.write_bytes(string);
                 w.write_bytes(&[0]);
                 offset += len;
-                previous = string;
+                previous = Some(string);
             }
         }
         u32::try_from(offset).map_err(|_| Error("string table size overflow".into()))
@@ -174,12 +174,12 @@ impl<'a> StringTable<'a> {
         sort(&mut ids, 1, &self.strings);
 
         let mut size = base as u64;
-        let mut previous = &[][..];
+        let mut previous: Option<&[u8]> = None;
         for id in ids {
             let string = self.strings.get_index(id).unwrap();
-            if !previous.ends_with(string) {
+            if !previous.is_some_and(|previous| previous.ends_with(string)) {
                 size += string.len() as u64 + 1;
-                previous = string;
+                previous = Some(string);
             }
         }
         size
-- 
2.43.0


From d2d3aa524579ffde273b679be444c0945e491e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 11/93] fix: only an all-zero thunk ends a PE import thunk list

An import by ordinal 0 has a zero address part but is not the null
terminator, so it and the imports after it were dropped.
---
 src/read/pe/import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/pe/import.rs b/src/read/pe/import.rs
index b94b989..e2ccbbd 100644
--- a/src/read/pe/import.rs
+++ b/src/read/pe/import.rs
@@ -218,7 +218,7 @@ impl<'data> ImportThunkList<'data> {
             self.null = true;
             return Err(Error("Missing PE null import thunk"));
         };
-        if thunk.address() == 0 {
+        if thunk.raw() == 0 {
             self.null = true;
             Ok(None)
         } else {
-- 
2.43.0


From 042a4e5620021b0dec7a38839df861efdf19d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 12/93] fix: XCOFF .bss and .tbss sections have no data in the
 file

---
 src/read/xcoff/section.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..3754a51 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -313,7 +313,16 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
     }
 
     /// Return the offset and size of the section in the file.
+    ///
+    /// Returns `None` for sections that have no data in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
+        if self
+            .s_flags()
+            .typ()
+            .intersects(xcoff::STYP_BSS | xcoff::STYP_TBSS)
+        {
+            return None;
+        }
         Some((self.s_scnptr().into(), self.s_size().into()))
     }
 
-- 
2.43.0


From 9535fdfe3c27fd8ec2dfc4c467ed1cba5f540d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 13/93] fix: XCOFF auxiliary header alignments are a log base 2

---
 src/read/xcoff/section.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 3754a51..b4f76a6 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -118,10 +118,16 @@ where
     fn align(&self) -> u64 {
         // The default section alignment is 4.
         if let Some(aux_header) = self.file.aux_header {
-            match self.kind() {
-                SectionKind::Text => aux_header.o_algntext().into(),
-                SectionKind::Data => aux_header.o_algndata().into(),
-                _ => 4,
+            // The alignments in the auxiliary header are a log base 2.
+            let align = match self.kind() {
+                SectionKind::Text => aux_header.o_algntext(),
+                SectionKind::Data => aux_header.o_algndata(),
+                _ => return 4,
+            };
+            if align < 64 {
+                1 << align
+            } else {
+                0
             }
         } else {
             4
-- 
2.43.0


From 4d2a4667524a0cc4593e1b79f22addd1e21c49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 14/93] fix: undefined XCOFF symbols are not common symbols

---
 src/read/xcoff/symbol.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 297dd7e..2415802 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -474,7 +474,12 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> ObjectSymbol<'data>
 
     #[inline]
     fn is_common(&self) -> bool {
-        self.symbol.n_sclass() == xcoff::C_EXT && self.symbol.n_scnum() == xcoff::N_UNDEF
+        if !self.symbol.has_aux_csect() {
+            return false;
+        }
+        self.symbols
+            .aux_csect(self.index, self.symbol.n_numaux() as usize)
+            .is_ok_and(|aux_csect| aux_csect.sym_type() == xcoff::XTY_CM)
     }
 
     #[inline]
-- 
2.43.0


From b12fc5e5435f98d259188465cabc57371015bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 15/93] fix: use the XCOFF overflow section for relocation
 counts

---
 src/read/xcoff/section.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index b4f76a6..838f997 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -79,6 +79,27 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> XcoffSection<'data, 'fi
 
     /// Get the raw XCOFF relocation entries for this section.
     pub fn xcoff_relocations(&self) -> Result<&'data [Xcoff::Rel]> {
+        if !self.file.header.is_type_64() && self.section.s_nreloc().into() == 65535 {
+            // There are more than 65,534 relocation entries. The actual count is in the
+            // s_paddr field of the STYP_OVRFLO section header which has the index of this
+            // section in its s_nreloc field.
+            let overflow = self
+                .file
+                .sections
+                .iter()
+                .find(|section| {
+                    section.s_flags().typ().intersects(xcoff::STYP_OVRFLO)
+                        && section.s_nreloc().into() as usize == self.index.0
+                })
+                .read_error("Missing XCOFF overflow section")?;
+            let reloc_num: u64 = overflow.s_paddr().into();
+            return self
+                .file
+                .data
+                .0
+                .read_slice_at(self.section.s_relptr().into(), reloc_num as usize)
+                .read_error("Invalid XCOFF relocation offset or number");
+        }
         self.section.relocations(self.file.data.0)
     }
 
@@ -124,11 +145,7 @@ where
                 SectionKind::Data => aux_header.o_algndata(),
                 _ => return 4,
             };
-            if align < 64 {
-                1 << align
-            } else {
-                0
-            }
+            if align < 64 { 1 << align } else { 0 }
         } else {
             4
         }
@@ -401,11 +418,11 @@ impl SectionHeader for xcoff::SectionHeader32 {
     /// `data` must be the entire file data.
     fn relocations<'data, R: ReadRef<'data>>(&self, data: R) -> read::Result<&'data [Self::Rel]> {
         let reloc_num = self.s_nreloc() as usize;
-        // TODO: If more than 65,534 relocation entries are required, the field value will be 65535,
+        // If more than 65,534 relocation entries are required, the field value will be 65535,
         // and an STYP_OVRFLO section header will contain the actual count of relocation entries in
-        // the s_paddr field.
+        // the s_paddr field. Use `XcoffSection::xcoff_relocations` to handle this.
         if reloc_num == 65535 {
-            return Err(Error("Overflow section is not supported yet."));
+            return Err(Error("XCOFF overflow section is required"));
         }
         data.read_slice_at(self.s_relptr().into(), reloc_num)
             .read_error("Invalid XCOFF relocation offset or number")
-- 
2.43.0


From 6ad3eee27e9d0bc1c0350aea4f850f98325c1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 16/93] fix: Wasm section file_range is an offset and size

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 5c04f65..db886bc 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -884,7 +884,7 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
     #[inline]
     fn file_range(&self) -> Option<(u64, u64)> {
         let range = &self.section.range;
-        Some((range.start as _, range.end as _))
+        Some((range.start as u64, (range.end - range.start) as u64))
     }
 
     #[inline]
-- 
2.43.0


From f42f3a706e00ac7166fff2167abc90a4b50f3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:24 +0000
Subject: [PATCH 17/93] fix: implement data_range for Wasm sections

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index db886bc..39ffa49 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -896,8 +896,13 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
             .read_error("Invalid Wasm section size or offset")
     }
 
-    fn data_range(&self, _address: u64, _size: u64) -> Result<Option<&'data [u8]>> {
-        unimplemented!()
+    fn data_range(&self, address: u64, size: u64) -> Result<Option<&'data [u8]>> {
+        Ok(read::util::data_range(
+            self.data()?,
+            self.address(),
+            address,
+            size,
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 575bc0c793f830418d8fc80a2e5640d62d6a5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 18/93] fix: Wasm start function index includes imported
 functions

---
 src/read/wasm.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 39ffa49..dedd66d 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -245,12 +245,6 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
-        if let Some(entry_func_id) = entry_func_id {
-            if let Some(range) = code_ranges.get(entry_func_id as usize) {
-                file.entry = range.0;
-            }
-        }
-
         let mut import_func_names = Vec::new();
         let mut import_global_names = Vec::new();
         if let Some(imports_section) = imports_section {
@@ -325,6 +319,15 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
             }
         }
 
+        // The function index space starts with the imported functions.
+        if let Some(local_func_id) =
+            entry_func_id.and_then(|id| id.checked_sub(import_func_names.len() as u32))
+        {
+            if let Some(range) = code_ranges.get(local_func_id as usize) {
+                file.entry = range.0;
+            }
+        }
+
         if let Some(symbols) = symbols {
             // We have a symbol table, so we don't need to add symbols for locals or exports.
             // These sections shouldn't be present at the same time as a symbol table anyway.
-- 
2.43.0


From 2585bb3547a2ccaec8370997d2eba34b9635617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 19/93] fix: Wasm export index of globals includes imported
 globals

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index dedd66d..36572eb 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -468,8 +468,13 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                 let mut address = 0;
                 let mut size = 0;
                 if export.kind == wp::ExternalKind::Global {
-                    if let Some(&Some(x)) = global_values.get(export.index as usize) {
-                        address = x;
+                    // The global index space starts with the imported globals.
+                    if let Some(local_index) =
+                        export.index.checked_sub(import_global_names.len() as u32)
+                    {
+                        if let Some(&Some(x)) = global_values.get(local_index as usize) {
+                            address = x;
+                        }
                     }
                 }
                 if export.kind == wp::ExternalKind::Func {
-- 
2.43.0


From 5c0209602de76a59472ba97008b969647b5b0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 20/93] fix: don't sign extend 32-bit Wasm global addresses

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 36572eb..e9e7066 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -166,7 +166,7 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                             // There should be exactly one instruction.
                             let init = global.init_expr.get_operators_reader().read();
                             address = match init.read_error("Couldn't read a global init expr")? {
-                                wp::Operator::I32Const { value } => Some(value as u64),
+                                wp::Operator::I32Const { value } => Some(u64::from(value as u32)),
                                 wp::Operator::I64Const { value } => Some(value as u64),
                                 _ => None,
                             };
-- 
2.43.0


From 0ab86a4aeef33b693061a21c6cffc38853ee1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 21/93] fix: names of Wasm linking symbols for globals, tables
 and tags

---
 src/read/wasm.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index e9e7066..ad07122 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -247,6 +247,8 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
 
         let mut import_func_names = Vec::new();
         let mut import_global_names = Vec::new();
+        let mut import_table_names = Vec::new();
+        let mut import_tag_names = Vec::new();
         if let Some(imports_section) = imports_section {
             let mut last_module_name = None;
 
@@ -266,8 +268,14 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                             import_global_names.push(name);
                             SymbolKind::Data
                         }
-                        wp::TypeRef::Table(_) => SymbolKind::Data,
-                        wp::TypeRef::Tag(_) => SymbolKind::Unknown,
+                        wp::TypeRef::Table(_) => {
+                            import_table_names.push(name);
+                            SymbolKind::Data
+                        }
+                        wp::TypeRef::Tag(_) => {
+                            import_tag_names.push(name);
+                            SymbolKind::Unknown
+                        }
                     };
 
                     if symbols.is_some() {
@@ -414,14 +422,16 @@ impl<'data, R: ReadRef<'data>> WasmFile<'data, R> {
                         // TODO: find the section name
                         None
                     }
+                    // The name of an undefined symbol defaults to the name of the import.
                     wp::SymbolInfo::Global { name, index, .. } => {
-                        if !flags.contains(wp::SymbolFlags::EXPLICIT_NAME) {
-                            import_global_names.get(index as usize).copied()
-                        } else {
-                            name
-                        }
+                        name.or_else(|| import_global_names.get(index as usize).copied())
+                    }
+                    wp::SymbolInfo::Event { name, index, .. } => {
+                        name.or_else(|| import_tag_names.get(index as usize).copied())
+                    }
+                    wp::SymbolInfo::Table { name, index, .. } => {
+                        name.or_else(|| import_table_names.get(index as usize).copied())
                     }
-                    wp::SymbolInfo::Event { name, .. } | wp::SymbolInfo::Table { name, .. } => name,
                 };
 
                 file.symbols.push(WasmSymbolInternal {
-- 
2.43.0


From 0923c1e1490343a3ff2512a7747d4c18e3677da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 22/93] fix: identify files that are only 8 bytes long

---
 src/read/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/mod.rs b/src/read/mod.rs
index f5c0a83..0f098f2 100644
--- a/src/read/mod.rs
+++ b/src/read/mod.rs
@@ -273,9 +273,9 @@ impl FileKind {
     /// Determine a file kind by parsing at the given offset.
     pub fn parse_at<'data, R: ReadRef<'data>>(data: R, offset: u64) -> Result<FileKind> {
         let magic = data
-            .read_bytes_at(offset, 16)
+            .read_bytes_at(offset, 8)
             .read_error("Could not read file magic")?;
-        if magic.len() < 16 {
+        if magic.len() < 8 {
             return Err(Error("File too short"));
         }
 
-- 
2.43.0


From 21198137d8e8d1f94ce8ea4f506b0b4bdd6e0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 23/93] fix: check the Mach-O header offset before adding to it

---
 src/read/macho/file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/file.rs b/src/read/macho/file.rs
index 2aa6230..0899214 100644
--- a/src/read/macho/file.rs
+++ b/src/read/macho/file.rs
@@ -758,8 +758,11 @@ pub trait MachHeader: Debug + Pod + read::private::Sealed {
         header_offset: u64,
     ) -> Result<LoadCommandIterator<'data, Self::Endian>> {
         let header_size = mem::size_of::<Self>() as u64;
+        let offset = header_offset
+            .checked_add(header_size)
+            .read_error("Invalid Mach-O header offset")?;
         let data = data
-            .read_bytes_at(header_offset + header_size, self.sizeofcmds(endian).into())
+            .read_bytes_at(offset, self.sizeofcmds(endian).into())
             .read_error("Invalid Mach-O load command table size")?;
         Ok(LoadCommandIterator::new(
             endian,
-- 
2.43.0


From d2eb47a4b7003443a769f774ea4a6d2251dd827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 24/93] fix: don't trust the CREL relocation count in the
 iterator size hint

---
 src/read/elf/relocation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 25257d9..131f040 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -1019,7 +1019,8 @@ impl<'data> Iterator for CrelIterator<'data> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.len(), Some(self.len()))
+        // The count is untrusted, and iteration stops at the first error.
+        (0, Some(self.len()))
     }
 }
 
-- 
2.43.0


From 4c8ab70b318210451da9ac28278366d6c2e7ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 25/93] fix: avoid shift overflow for an invalid GNU hash bloom
 shift

---
 src/read/elf/hash.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..8424fd7 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,8 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        let hash2 = hash.checked_shr(self.bloom_shift)?;
+        if filter & (1 << (hash2 % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From 609002fb058b7474f66a08b793b22d267e9062ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 26/93] fix: limit the number of nodes visited in a Mach-O
 exports trie

---
 src/read/macho/exports_trie.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 1e6dedd..fbfe24e 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -114,6 +114,8 @@ struct Frame<'data> {
 struct NodeIterator<'data> {
     data: &'data [u8],
     first: bool,
+    // The number of nodes that can still be visited.
+    nodes_remaining: usize,
     stack: Vec<Frame<'data>>,
     // Accumulates the prefix edge strings as we traverse the trie.
     name_buf: Vec<u8>,
@@ -126,12 +128,19 @@ impl<'data> NodeIterator<'data> {
             data,
             // The root node is omitted if there are no exports.
             first: !data.is_empty(),
+            // Every edge uses some data, so this is only exceeded if
+            // nodes are visited more than once.
+            nodes_remaining: data.len(),
             stack: Vec::new(),
             name_buf: Vec::new(),
         }
     }
 
     fn push_node(&mut self, offset: u64) -> Result<Option<ExportSymbol<'data>>> {
+        self.nodes_remaining = self
+            .nodes_remaining
+            .checked_sub(1)
+            .read_error("Too many exports trie nodes")?;
         let mut data = Bytes(
             self.data
                 .get(offset as usize..)
-- 
2.43.0


From a4b831844090ec09b07105943b3d67aee40e9b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 27/93] fix: respect the end of the range for cached delimited
 reads

---
 src/read/read_cache.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..c8e7346 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -130,7 +130,13 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
         let cache = &mut *self.cache.borrow_mut();
         cache.range_in_bounds(&range)?;
         let buf = match cache.strings.entry((range.start, delimiter)) {
-            Entry::Occupied(entry) => entry.into_mut(),
+            Entry::Occupied(entry) => {
+                // The cached read may have been for a larger range.
+                if entry.get().len() as u64 >= range.end - range.start {
+                    return Err(());
+                }
+                entry.into_mut()
+            }
             Entry::Vacant(entry) => {
                 cache.read.seek(range.start)?;
 
-- 
2.43.0


From 66856b1496aa92499fe5b808391ddb880f7ac095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 28/93] fix: check the end of the range for delimited reads in
 ReadCacheRange

---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index c8e7346..48a67e3 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -207,15 +207,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From 63282aa2e78fb1f57c9d997c95f353ebd074b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 29/93] fix: order ELF symbols by the binding that is written

A symbol with explicit flags, a weak symbol with compilation scope, or an
undefined symbol with compilation scope could be placed in the wrong partition
of the symbol table, so that sh_info did not separate local symbols.
---
 src/write/elf/object.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0383bdf..ee211f6 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -673,16 +673,21 @@ impl<'a> Object<'a> {
         // Calculate index of symbols and add symbol strings to strtab.
         let mut symbol_offsets = vec![SymbolOffsets::default(); self.symbols.len()];
         writer.reserve_null_symbol_index();
-        // Local symbols must come before global.
+        // Local symbols must come before global. This depends on the binding that
+        // is written, which may differ from the scope.
+        let is_local = |symbol: &Symbol| match self.symbol_flags(symbol) {
+            SymbolFlags::Elf { st_info, .. } => st_info.st_bind() == elf::STB_LOCAL,
+            _ => symbol.is_local(),
+        };
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if symbol.is_local() {
+            if is_local(symbol) {
                 let section_index = symbol.section.id().map(|s| section_offsets[s.0].index);
                 symbol_offsets[index].index = writer.reserve_symbol_index(section_index);
             }
         }
         let symtab_num_local = writer.symbol_count();
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if !symbol.is_local() {
+            if !is_local(symbol) {
                 let section_index = symbol.section.id().map(|s| section_offsets[s.0].index);
                 symbol_offsets[index].index = writer.reserve_symbol_index(section_index);
             }
@@ -835,12 +840,12 @@ impl<'a> Object<'a> {
             Ok(())
         };
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if symbol.is_local() {
+            if is_local(symbol) {
                 write_symbol(index, symbol)?;
             }
         }
         for (index, symbol) in self.symbols.iter().enumerate() {
-            if !symbol.is_local() {
+            if !is_local(symbol) {
                 write_symbol(index, symbol)?;
             }
         }
-- 
2.43.0


From 7136905e11b801bbb27a0e9ed20e74edac331f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 30/93] fix: set SHF_GROUP on the members of ELF COMDAT groups

The ELF specification requires this flag on every section in a group, and
linkers such as GNU ld ignore the group without it.
---
 src/write/elf/object.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index ee211f6..6bc8be1 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -20,6 +20,7 @@ struct SectionOffsets {
     str_id: StringId,
     reloc_offset: u64,
     reloc_str_id: Option<StringId>,
+    in_group: bool,
 }
 
 #[derive(Default, Clone, Copy)]
@@ -667,8 +668,14 @@ impl<'a> Object<'a> {
                 // Relocation data is reserved later.
                 reloc_offset: 0,
                 reloc_str_id,
+                in_group: false,
             });
         }
+        for comdat in &self.comdats {
+            for section in &comdat.sections {
+                section_offsets[section.0].in_group = true;
+            }
+        }
 
         // Calculate index of symbols and add symbol strings to strtab.
         let mut symbol_offsets = vec![SymbolOffsets::default(); self.symbols.len()];
@@ -893,13 +900,20 @@ impl<'a> Object<'a> {
             );
         }
         for (index, section) in self.sections.iter().enumerate() {
-            let SectionFlags::Elf { sh_type, sh_flags } = self.section_flags(section) else {
+            let SectionFlags::Elf {
+                sh_type,
+                mut sh_flags,
+            } = self.section_flags(section)
+            else {
                 return Err(Error(format!(
                     "unimplemented section `{}` kind {:?}",
                     section.name().unwrap_or(""),
                     section.kind
                 )));
             };
+            if section_offsets[index].in_group {
+                sh_flags |= elf::SHF_GROUP;
+            }
             // TODO: not sure if this is correct, maybe user should determine this
             let sh_entsize = match section.kind {
                 SectionKind::ReadOnlyString | SectionKind::OtherString => 1,
-- 
2.43.0


From 43c4253783c133fa89dcec8d31cde8e985a5b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 31/93] fix: report values that don't fit in an ELF32 file

Symbol values and sizes, relocation offsets and addends, and section sizes
and alignments were silently truncated.
---
 src/write/elf/object.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 6bc8be1..4d384c6 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -631,6 +631,16 @@ impl<'a> Object<'a> {
             })
             .collect();
 
+        // Check that a value fits in a field with the size of the ELF class.
+        let is_64 = self.elf_is_64();
+        let check_word = |value: u64, what: &str| {
+            if is_64 || value <= u32::MAX.into() {
+                Ok(())
+            } else {
+                Err(Error(format!("{what} {value:#x} is too large for ELF32")))
+            }
+        };
+
         // Start calculating offsets of everything.
         let mut writer = Writer::new(self.endian, self.elf_is_64(), buffer);
         writer.reserve_file_header();
@@ -835,6 +845,8 @@ impl<'a> Object<'a> {
                     (elf::SymbolSection(0), Some(section_offsets[id.0].index.0))
                 }
             };
+            check_word(symbol.value, "symbol value")?;
+            check_word(symbol.size, "symbol size")?;
             writer.write_symbol(&Sym {
                 st_name: writer.string_offset(symbol_offsets[index].str_id),
                 section,
@@ -870,6 +882,10 @@ impl<'a> Object<'a> {
                     } else {
                         return Err(Error("invalid relocation flags".into()));
                     };
+                    check_word(reloc.offset, "relocation offset")?;
+                    if is_rela && i32::try_from(reloc.addend).is_err() {
+                        check_word(reloc.addend as u64, "relocation addend")?;
+                    }
                     let r_sym = symbol_offsets[reloc.symbol.0].index.0;
                     writer.write_relocation(
                         is_rela,
@@ -919,6 +935,8 @@ impl<'a> Object<'a> {
                 SectionKind::ReadOnlyString | SectionKind::OtherString => 1,
                 _ => 0,
             };
+            check_word(section.size, "section size")?;
+            check_word(section.align, "section alignment")?;
             writer.write_section_header(&SectionHeader {
                 sh_name: writer.section_name_offset(Some(section_offsets[index].str_id)),
                 sh_type,
-- 
2.43.0


From 178ee4650c1ff4e3a9993691276352dc67c45c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 32/93] fix: report implicit relocation addends that don't fit
 in 32 bits

They were silently truncated.
---
 src/write/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/write/mod.rs b/src/write/mod.rs
index d63a994..f8bf2b3 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -775,7 +775,18 @@ impl<'a> Object<'a> {
             Some(())
         };
         match size {
-            32 => write_bytes(&self.endian.write_u32(relocation.addend as u32)),
+            32 => {
+                // Allow both signed and unsigned values.
+                if i32::try_from(relocation.addend).is_err()
+                    && u32::try_from(relocation.addend).is_err()
+                {
+                    return Err(Error(format!(
+                        "relocation addend is too large {:?}",
+                        relocation
+                    )));
+                }
+                write_bytes(&self.endian.write_u32(relocation.addend as u32))
+            }
             64 => write_bytes(&self.endian.write_u64(relocation.addend as u64)),
             _ => {
                 return Err(Error(format!(
-- 
2.43.0


From d6f1140ac7211f35b534e9614839239340f7e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 33/93] fix: use the COFF string table for names that start
 with a slash

Short section names that start with a slash are offsets into the string table.
---
 src/write/coff/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..fd94b72 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -434,7 +434,9 @@ impl<'a> Writer<'a> {
     ///
     /// This must be called before [`Self::reserve_symtab_strtab`].
     pub fn add_name(&mut self, name: &'a [u8]) -> Name {
-        if name.len() > 8 {
+        // A section name that starts with a slash would be interpreted as a
+        // string table offset.
+        if name.len() > 8 || name.starts_with(b"/") {
             Name::Long(self.add_string(name))
         } else {
             let mut short_name = [0; 8];
-- 
2.43.0


From 3d7150a9ec0ae6b3ec92cab74ea4b910980425bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 34/93] fix: report COFF section and file name counts that
 overflow

The number of sections and the number of auxiliary symbols for a file name were
silently truncated, which corrupted the section table and symbol table.
---
 src/write/coff/object.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0dc6bf7..2f83437 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -570,6 +570,12 @@ impl<'a> Object<'a> {
                 }
                 SymbolKind::File => {
                     // Name goes in auxiliary symbol records.
+                    if name.len() > usize::from(u8::MAX) * coff::IMAGE_SIZEOF_SYMBOL {
+                        return Err(Error(format!(
+                            "file symbol name is too long: {} bytes",
+                            name.len()
+                        )));
+                    }
                     symbol_offsets[index].aux_count = writer.reserve_aux_file_name(&symbol.name);
                     name = b".file";
                 }
@@ -582,6 +588,12 @@ impl<'a> Object<'a> {
         }
 
         // Reserve file ranges.
+        if self.sections.len() > usize::from(coff::IMAGE_SYM_SECTION_MAX) {
+            return Err(Error(format!(
+                "too many sections for COFF: {}",
+                self.sections.len()
+            )));
+        }
         writer.reserve_file_header();
         writer.reserve_section_headers(self.sections.len() as u16);
         for (index, section) in self.sections.iter().enumerate() {
-- 
2.43.0


From 84f72b5c903b6230dd5ec1b9c639635ec6125c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 35/93] fix: report sizes and offsets that don't fit in a COFF
 file

Section sizes, symbol values and sizes, relocation offsets, and file offsets were
silently truncated.
---
 src/write/coff/object.rs | 14 +++++++++-----
 src/write/coff/writer.rs |  4 ++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 2f83437..5f8427a 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -677,7 +677,7 @@ impl<'a> Object<'a> {
             });
             writer.write_section_header(writer::SectionHeader {
                 name: section_offsets[index].name,
-                size_of_raw_data: section.size as u32,
+                size_of_raw_data: coff_u32(section.size, "section size")?,
                 pointer_to_raw_data: section_offsets[index].offset,
                 pointer_to_relocations: section_offsets[index].reloc_offset,
                 pointer_to_linenumbers: 0,
@@ -700,7 +700,7 @@ impl<'a> Object<'a> {
                         return Err(Error("invalid relocation flags".into()));
                     };
                     writer.write_relocation(writer::Relocation {
-                        virtual_address: reloc.offset as u32,
+                        virtual_address: coff_u32(reloc.offset, "relocation offset")?,
                         symbol: symbol_offsets[reloc.symbol.0].index,
                         typ,
                     });
@@ -734,9 +734,9 @@ impl<'a> Object<'a> {
                 // weak symbols should have a value of 0
                 0
             } else if symbol.section == SymbolSection::Common {
-                symbol.size as u32
+                coff_u32(symbol.size, "symbol size")?
             } else {
-                symbol.value as u32
+                coff_u32(symbol.value, "symbol value")?
             };
 
             // write the weak default symbol before the weak symbol
@@ -747,7 +747,7 @@ impl<'a> Object<'a> {
 
                 writer.write_symbol(writer::Symbol {
                     name: weak_default_symbol.name,
-                    value: symbol.value as u32,
+                    value: coff_u32(symbol.value, "symbol value")?,
                     section_number: match symbol.section {
                         SymbolSection::Section(id) => coff::SymbolSection(id.0 as i32 + 1),
                         SymbolSection::Undefined => coff::IMAGE_SYM_ABSOLUTE,
@@ -821,6 +821,10 @@ impl<'a> Object<'a> {
     }
 }
 
+fn coff_u32(value: u64, what: &str) -> Result<u32> {
+    u32::try_from(value).map_err(|_| Error(format!("{what} {value:#x} is too large for COFF")))
+}
+
 // JamCRC
 fn checksum(data: &[u8]) -> u32 {
     let mut hasher = crc32fast::Hasher::new_with_initial(0xffff_ffff);
diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index fd94b72..21ec24d 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -129,6 +129,10 @@ impl<'a> Writer<'a> {
     pub fn write_file_header(&mut self, header: FileHeader) -> Result<()> {
         debug_assert_eq!(self.buffer.count(), 0);
 
+        if self.len > u64::from(u32::MAX) {
+            return Err(Error(format!("File size overflow: {:#x}", self.len)));
+        }
+
         // Start writing.
         self.buffer
             .reserve(self.len)
-- 
2.43.0


From 86c3e09b59fa47362f98d1d9b3ffde0b5f5818f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 36/93] fix: correct the addend of Mach-O
 X86_64_RELOC_SIGNED_{1,2,4}

The value stored for these relocations already includes the bias for the bytes
that follow the fixup, so that the target is always S + stored - 4 - P. This
matches the documentation in macho.rs, LLVM and ld64. Both the reader and the
writer applied the bias a second time.

Also use the length of the fixup in the writer, to match the reader.
---
 src/read/macho/relocation.rs | 13 +++----------
 src/write/macho/object.rs    | 19 +++++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/read/macho/relocation.rs b/src/read/macho/relocation.rs
index cce6500..91eee8b 100644
--- a/src/read/macho/relocation.rs
+++ b/src/read/macho/relocation.rs
@@ -123,18 +123,11 @@ where
                 // This differs from other file formats, so adjust the
                 // addend here to account for this.
                 match cputype {
-                    macho::CPU_TYPE_X86 => {
+                    // The bias of `X86_64_RELOC_SIGNED_{1,2,4}` is already included
+                    // in the addend that is stored for those relocations.
+                    macho::CPU_TYPE_X86 | macho::CPU_TYPE_X86_64 => {
                         addend -= 1 << reloc.r_length;
                     }
-                    macho::CPU_TYPE_X86_64 => {
-                        addend -= 1 << reloc.r_length;
-                        match reloc.r_type {
-                            macho::X86_64_RELOC_SIGNED_1 => addend -= 1,
-                            macho::X86_64_RELOC_SIGNED_2 => addend -= 2,
-                            macho::X86_64_RELOC_SIGNED_4 => addend -= 4,
-                            _ => {}
-                        }
-                    }
                     // TODO: maybe missing support for some architectures and relocations
                     _ => {}
                 }
diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..f77c440 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -389,11 +389,13 @@ impl<'a> Object<'a> {
         &mut self,
         relocation: &mut RelocationInternal,
     ) -> Result<bool> {
-        let (r_type, r_pcrel) = if let RelocationFlags::MachO {
-            r_type, r_pcrel, ..
+        let (r_type, r_pcrel, r_length) = if let RelocationFlags::MachO {
+            r_type,
+            r_pcrel,
+            r_length,
         } = relocation.flags
         {
-            (r_type, r_pcrel)
+            (r_type, r_pcrel, r_length)
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
@@ -403,14 +405,11 @@ impl<'a> Object<'a> {
             // PC being different from the place of the relocation.
             // This differs from other file formats, so adjust the
             // addend here to account for this.
+            //
+            // The bias of `X86_64_RELOC_SIGNED_{1,2,4}` is already included in
+            // the addend that is stored for those relocations.
             let pcrel_offset = match self.architecture {
-                Architecture::I386 => 4,
-                Architecture::X86_64 => match r_type {
-                    macho::X86_64_RELOC_SIGNED_1 => 5,
-                    macho::X86_64_RELOC_SIGNED_2 => 6,
-                    macho::X86_64_RELOC_SIGNED_4 => 8,
-                    _ => 4,
-                },
+                Architecture::I386 | Architecture::X86_64 => 1 << r_length,
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
             };
-- 
2.43.0


From 81ae66f1f1ebf79b2d6461ae536e8523e20f2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:57 +0000
Subject: [PATCH 37/93] fix: check sizes and addends of Mach-O ARM64
 relocations

Sizes 12, 21 and 26 were accepted for relocations that aren't in an instruction,
and then written as a 32-bit relocation. For arm64_32, the size 26 was refused
for branches, and the addend overwrote the instruction.
---
 src/write/macho/object.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index f77c440..7f74585 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -318,8 +318,14 @@ impl<'a> Object<'a> {
         } else {
             return Ok(());
         };
-        // Aarch64 relocs of these sizes act as if they are double-word length
-        if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
+        // Aarch64 branch relocs of this size act as if they are double-word length
+        if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) && matches!(
+            (kind, encoding, size),
+            (K::Relative, E::AArch64Call, 26) | (K::PltRelative, E::Generic | E::AArch64Call, 26)
+        ) {
             size = 32;
         }
         let r_length = match size {
@@ -416,7 +422,10 @@ impl<'a> Object<'a> {
             relocation.addend += pcrel_offset;
         }
         // Determine if addend is implicit.
-        let implicit = if self.architecture == Architecture::Aarch64 {
+        let implicit = if matches!(
+            self.architecture,
+            Architecture::Aarch64 | Architecture::Aarch64_Ilp32
+        ) {
             match r_type {
                 macho::ARM64_RELOC_BRANCH26
                 | macho::ARM64_RELOC_PAGE21
-- 
2.43.0


From 72348ac6402508b273f096c77fb2d344de2dff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 38/93] fix: report Mach-O ARM64_RELOC_ADDEND values that don't
 fit in 24 bits

They were silently truncated.
---
 src/write/macho/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 7f74585..6820131 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -819,6 +819,13 @@ impl<'a> Object<'a> {
                             }
                         };
 
+                        // The addend is a signed 24-bit value.
+                        if !(-0x80_0000..0x80_0000).contains(&reloc.addend) {
+                            return Err(Error(format!(
+                                "relocation addend is too large {:?}",
+                                reloc
+                            )));
+                        }
                         let reloc_info = macho::RelocationInfo {
                             r_address: reloc.offset as u32,
                             r_symbolnum: reloc.addend as u32,
-- 
2.43.0


From 9dd5d413d0fa057fc1144969aad89df88a155808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:46 +0000
Subject: [PATCH 39/93] fix: report Mach-O relocations for symbols that aren't
 emitted

File symbols, and section symbols used as the subtractor on architectures other
than ARM64, are not emitted. Relocations for these used symbol index 0 instead.
---
 src/write/macho/object.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 6820131..df7ea94 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -14,7 +14,7 @@ struct SectionOffsets {
 
 #[derive(Default, Clone, Copy)]
 struct SymbolOffsets {
-    index: u32,
+    index: Option<u32>,
     str_id: Option<StringId>,
 }
 
@@ -577,7 +577,7 @@ impl<'a> Object<'a> {
             .chain(external_symbols.iter().copied())
             .chain(undefined_symbols.iter().copied())
         {
-            symbol_offsets[index].index = nsyms;
+            symbol_offsets[index].index = Some(nsyms);
             nsyms += 1;
         }
         if nsyms > 1 << 24 {
@@ -787,6 +787,18 @@ impl<'a> Object<'a> {
                         return Err(Error("invalid relocation flags".into()));
                     };
 
+                    // Symbols that aren't emitted can't be used by a relocation.
+                    let symbol_index = |id: SymbolId| {
+                        symbol_offsets[id.0].index.ok_or_else(|| {
+                            let symbol = &self.symbols[id.0];
+                            Error(format!(
+                                "unsupported relocation for symbol `{}` kind {:?}",
+                                symbol.name().unwrap_or(""),
+                                symbol.kind
+                            ))
+                        })
+                    };
+
                     if let Some(subtractor) = reloc.subtractor {
                         let r_type = match self.architecture {
                             Architecture::Aarch64 | Architecture::Aarch64_Ilp32 => {
@@ -799,7 +811,7 @@ impl<'a> Object<'a> {
                         };
                         let reloc_info = macho::RelocationInfo {
                             r_address: reloc.offset as u32,
-                            r_symbolnum: symbol_offsets[subtractor.0].index,
+                            r_symbolnum: symbol_index(subtractor)?,
                             r_pcrel: false,
                             r_length,
                             r_extern: true,
@@ -844,7 +856,7 @@ impl<'a> Object<'a> {
                         r_symbolnum = section_offsets[symbol.section.id().unwrap().0].index;
                         r_extern = false;
                     } else {
-                        r_symbolnum = symbol_offsets[reloc.symbol.0].index;
+                        r_symbolnum = symbol_index(reloc.symbol)?;
                         r_extern = true;
                     }
 
-- 
2.43.0


From 2a24edc99edefccd6fac96e144ae4751d3770ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 40/93] fix: partition Mach-O symbols by the flags that are
 written

For a symbol with explicit flags, the partition used the scope instead of N_EXT,
which gave wrong ranges in LC_DYSYMTAB.
---
 src/write/macho/object.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index df7ea94..9e82876 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -557,9 +557,14 @@ impl<'a> Object<'a> {
             if !symbol.name.is_empty() {
                 symbol_offsets[index].str_id = Some(strtab.add(&symbol.name));
             }
+            // This depends on the flags that are written, which may differ from the scope.
+            let is_local = match self.symbol_flags(symbol) {
+                SymbolFlags::MachO { n_type, .. } => n_type.is_stab() || !n_type.is_ext(),
+                _ => symbol.is_local(),
+            };
             if symbol.is_undefined() || symbol.is_common() {
                 undefined_symbols.push(index);
-            } else if symbol.is_local() {
+            } else if is_local {
                 local_symbols.push(index);
             } else {
                 external_symbols.push(index);
-- 
2.43.0


From 4b9219a7c4ea5fb9625aa7ee3a42032bff31dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 41/93] fix: report Mach-O common symbol alignments that can't
 be encoded

They were silently reduced to 2^15.
---
 src/write/macho/object.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 9e82876..67469a7 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -202,6 +202,18 @@ impl<'a> Object<'a> {
         SymbolFlags::MachO { n_type, n_desc }
     }
 
+    /// Check that the alignment of a common symbol can be encoded by `macho_symbol_flags`.
+    fn macho_check_common_align(&self, symbol: &Symbol) -> Result<()> {
+        if symbol.is_common() && symbol.flags == SymbolFlags::None && symbol.value > 1 << 15 {
+            return Err(Error(format!(
+                "alignment {:#x} is too large for common symbol `{}`",
+                symbol.value,
+                symbol.name().unwrap_or("")
+            )));
+        }
+        Ok(())
+    }
+
     fn macho_tlv_bootstrap(&mut self) -> SymbolId {
         match self.tlv_bootstrap {
             Some(id) => id,
@@ -918,6 +930,8 @@ impl<'a> Object<'a> {
                 )));
             };
 
+            self.macho_check_common_align(symbol)?;
+
             let n_sect = match symbol.section {
                 SymbolSection::Section(id) => id.0 + 1,
                 _ => 0,
-- 
2.43.0


From 07d19298096496edc5fe4165ee741e278c96b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 42/93] fix: report values that don't fit in a Mach-O file

Symbol values in 32-bit files and relocation offsets were silently truncated,
and the addresses of zero-fill sections and symbols could overflow.
---
 src/write/macho/object.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 67469a7..260445f 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -512,13 +512,19 @@ impl<'a> Object<'a> {
         let segment_file_offset = offset.0;
         let mut section_offsets = vec![SectionOffsets::default(); self.sections.len()];
         let mut address = 0;
+        let add_size = |address: u64, size: u64| {
+            address
+                .checked_add(size)
+                .filter(|end| *end <= i64::MAX as u64)
+                .ok_or_else(|| Error(format!("Segment vmsize overflow: {address:#x}+{size:#x}")))
+        };
         for (index, section) in self.sections.iter().enumerate() {
             section_offsets[index].index = 1 + index as u32;
             if !section.is_bss() {
                 address = align(address, section.align);
                 section_offsets[index].address = address;
                 section_offsets[index].offset = segment_file_offset + address;
-                address += section.size;
+                address = add_size(address, section.size)?;
             }
         }
         let segment_file_size = address;
@@ -528,7 +534,7 @@ impl<'a> Object<'a> {
                 debug_assert!(section.data.is_empty());
                 address = align(address, section.align);
                 section_offsets[index].address = address;
-                address += section.size;
+                address = add_size(address, section.size)?;
             }
         }
         if !is_64 && address > u64::from(u32::MAX) {
@@ -804,6 +810,11 @@ impl<'a> Object<'a> {
                         return Err(Error("invalid relocation flags".into()));
                     };
 
+                    // `r_address` is signed.
+                    if reloc.offset > i32::MAX as u64 {
+                        return Err(Error(format!("relocation offset is too large {:?}", reloc)));
+                    }
+
                     // Symbols that aren't emitted can't be used by a relocation.
                     let symbol_index = |id: SymbolId| {
                         symbol_offsets[id.0].index.ok_or_else(|| {
@@ -939,11 +950,24 @@ impl<'a> Object<'a> {
 
             let n_value = match symbol.section {
                 SymbolSection::Common => symbol.size,
-                SymbolSection::Section(section) => {
-                    section_offsets[section.0].address + symbol.value
-                }
+                SymbolSection::Section(section) => section_offsets[section.0]
+                    .address
+                    .checked_add(symbol.value)
+                    .ok_or_else(|| {
+                        Error(format!(
+                            "value {:#x} is too large for symbol `{}`",
+                            symbol.value,
+                            symbol.name().unwrap_or("")
+                        ))
+                    })?,
                 _ => symbol.value,
             };
+            if !is_64 && n_value > u64::from(u32::MAX) {
+                return Err(Error(format!(
+                    "value {n_value:#x} is too large for symbol `{}`",
+                    symbol.name().unwrap_or("")
+                )));
+            }
 
             let n_strx = symbol_offsets[index]
                 .str_id
-- 
2.43.0


From 96cea7f14b46e2c37752bfb847b497d1ffaf2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 43/93] fix: write the size of XCOFF zero-fill sections

The size of the data was used instead, which is always 0 for these sections.
This also gave the following section the same address.
---
 src/write/xcoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..633b1c6 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,7 +257,7 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -407,7 +407,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +423,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From 4e0d7e6f8c8337adf88560c8067d6519f6f789c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 44/93] fix: convert between XCOFF relocation addresses and
 section offsets

r_vaddr is a virtual address, so it includes the address of the section. The
reader returned it as the offset in the section, and the writer omitted the
address of the section.
---
 src/read/xcoff/relocation.rs | 7 ++++++-
 src/read/xcoff/section.rs    | 1 +
 src/write/xcoff.rs           | 5 +++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/read/xcoff/relocation.rs b/src/read/xcoff/relocation.rs
index 6ce3879..a98a0df 100644
--- a/src/read/xcoff/relocation.rs
+++ b/src/read/xcoff/relocation.rs
@@ -27,6 +27,7 @@ where
 {
     #[allow(unused)]
     pub(super) file: &'file XcoffFile<'data, Xcoff, R>,
+    pub(super) section_address: u64,
     pub(super) relocations:
         slice::Iter<'data, <<Xcoff as FileHeader>::SectionHeader as SectionHeader>::Rel>,
 }
@@ -58,7 +59,11 @@ where
             let size = (r_rsize & 0x3F) + 1;
             let target = RelocationTarget::Symbol(relocation.symbol());
             (
-                relocation.r_vaddr().into(),
+                // `r_vaddr` is a virtual address.
+                relocation
+                    .r_vaddr()
+                    .into()
+                    .wrapping_sub(self.section_address),
                 Relocation {
                     kind,
                     encoding,
diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 838f997..fd3615b 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -224,6 +224,7 @@ where
         let rel = self.xcoff_relocations().unwrap_or(&[]);
         XcoffRelocationIterator {
             file: self.file,
+            section_address: self.section.s_vaddr().into(),
             relocations: rel.iter(),
         }
     }
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 633b1c6..5819880 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -461,7 +461,7 @@ impl<'a> Object<'a> {
                         };
                     if is_64 {
                         let xcoff_rel = xcoff::Rel64 {
-                            r_vaddr: reloc.offset.into(),
+                            r_vaddr: (section_offsets[index].address + reloc.offset).into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -469,7 +469,8 @@ impl<'a> Object<'a> {
                         buffer.write_pod(&xcoff_rel);
                     } else {
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: (reloc.offset as u32).into(),
+                            r_vaddr: ((section_offsets[index].address + reloc.offset) as u32)
+                                .into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
-- 
2.43.0


From e3ee4500836dfffa2a3fa8871bffda9e14a13634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 45/93] fix: check the size of XCOFF relocations

A size of 0 caused an integer underflow, sizes larger than 64 set the flag bits
of r_rsize, and the flag bits were included in the size for explicit flags.
---
 src/write/xcoff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 5819880..910dc0f 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -184,6 +184,9 @@ impl<'a> Object<'a> {
                 return Err(Error(format!("unimplemented relocation {:?}", reloc)));
             }
         };
+        if !(1..=64).contains(&size) {
+            return Err(Error(format!("unimplemented relocation size {:?}", reloc)));
+        }
         let r_rsize = size - 1;
         reloc.flags = RelocationFlags::Xcoff { r_rtype, r_rsize };
         Ok(())
@@ -210,7 +213,8 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("unexpected relocation {:?}", reloc)));
         };
-        Ok(r_rsize + 1)
+        // The other bits are flags.
+        Ok((r_rsize & 0x3f) + 1)
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-- 
2.43.0


From ba46f215250a7c6607124d720b436215b52a0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 46/93] fix: use XTY_ER for undefined XCOFF symbols

They were written as the definition of a csect.
---
 src/write/xcoff.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 910dc0f..122ea58 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -127,7 +127,7 @@ impl<'a> Object<'a> {
             } else {
                 SectionKind::Unknown
             };
-            match symbol.kind {
+            let (x_smtyp, x_smclas) = match symbol.kind {
                 SymbolKind::Text => (xcoff::XTY_SD, xcoff::XMC_PR),
                 SymbolKind::Data => {
                     if section_kind == SectionKind::UninitializedData {
@@ -148,6 +148,11 @@ impl<'a> Object<'a> {
                 _ => {
                     return SymbolFlags::None;
                 }
+            };
+            if symbol.is_undefined() {
+                (xcoff::XTY_ER, x_smclas)
+            } else {
+                (x_smtyp, x_smclas)
             }
         } else {
             (xcoff::CsectAuxType(0), xcoff::CsectAuxClass(0))
-- 
2.43.0


From d6a661a5ce96f71745e942149c14354b4e10fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 47/93] fix: report XCOFF common symbols as unimplemented

They were silently written as undefined symbols.
---
 src/write/xcoff.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 122ea58..5cc2413 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -503,7 +503,13 @@ impl<'a> Object<'a> {
                     debug_assert_eq!(symbol.kind, SymbolKind::File);
                     xcoff::N_DEBUG
                 }
-                SymbolSection::Undefined | SymbolSection::Common => xcoff::N_UNDEF,
+                SymbolSection::Undefined => xcoff::N_UNDEF,
+                SymbolSection::Common => {
+                    return Err(Error(format!(
+                        "unimplemented common symbol `{}`",
+                        symbol.name().unwrap_or("")
+                    )));
+                }
                 SymbolSection::Absolute => xcoff::N_ABS,
                 SymbolSection::Section(id) => xcoff::SymbolSection(id.0 as i16 + 1),
             };
-- 
2.43.0


From 4926e056437e5d56835ffae9e73f42c745420611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 48/93] fix: report counts and sizes that don't fit in an XCOFF
 file

The number of sections, the number of relocations for a section in 32-bit files,
and addresses, sizes and offsets in 32-bit files were silently truncated.
---
 src/write/xcoff.rs | 50 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 5cc2413..1991f0f 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -244,6 +244,27 @@ impl<'a> Object<'a> {
             )
         };
 
+        if self.sections.len() > i16::MAX as usize {
+            return Err(Error(format!(
+                "too many sections for XCOFF: {}",
+                self.sections.len()
+            )));
+        }
+
+        // Check that a value fits in a field with the size of the address.
+        let check_word = |value: u64, what: &str| {
+            if is_64 || value <= u64::from(u32::MAX) {
+                Ok(value)
+            } else {
+                Err(Error(format!("{what} {value:#x} is too large for XCOFF32")))
+            }
+        };
+        // Calculate an address, which must also be within the given size.
+        let add_address = |address: u64, value: u64, what: &str| match address.checked_add(value) {
+            Some(value) => check_word(value, what),
+            None => Err(Error(format!("{what} {value:#x} is too large for XCOFF"))),
+        };
+
         // Calculate offsets and build strtab.
         let mut offset = 0;
         let mut strtab = StringTable::default();
@@ -258,6 +279,7 @@ impl<'a> Object<'a> {
         // Calculate size of section data.
         let mut section_offsets = vec![SectionOffsets::default(); self.sections.len()];
         for (index, section) in self.sections.iter().enumerate() {
+            check_word(section.size, "section size")?;
             let len = section.data.len() as u64;
             let sectype = section.kind;
             // Section address should be 0 for all sections except the .text, .data, and .bss sections.
@@ -266,7 +288,9 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += section.size;
+                address = add_address(address, section.size, "section size")?;
+                // This also allows for the alignment.
+                add_address(address, 3, "section size")?;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -284,6 +308,13 @@ impl<'a> Object<'a> {
         // Calculate size of relocations.
         for (index, section) in self.sections.iter().enumerate() {
             let count = section.relocations.len() as u64;
+            if !is_64 && count >= 0xffff {
+                // TODO: support STYP_OVRFLO section headers.
+                return Err(Error(format!(
+                    "too many relocations for section `{}`: {count}",
+                    section.name().unwrap_or("")
+                )));
+            }
             if count != 0 {
                 section_offsets[index].reloc_offset = offset;
                 offset += count * rel_size;
@@ -355,6 +386,7 @@ impl<'a> Object<'a> {
         // First 4 bytes of strtab are the length.
         let strtab_len = strtab.write(&mut strtab_data, 4)?;
         offset += strtab_len as u64;
+        check_word(offset, "file size")?;
 
         // Start writing.
         buffer
@@ -468,9 +500,14 @@ impl<'a> Object<'a> {
                         } else {
                             return Err(Error("invalid relocation flags".into()));
                         };
+                    let r_vaddr = add_address(
+                        section_offsets[index].address,
+                        reloc.offset,
+                        "relocation offset",
+                    )?;
                     if is_64 {
                         let xcoff_rel = xcoff::Rel64 {
-                            r_vaddr: (section_offsets[index].address + reloc.offset).into(),
+                            r_vaddr: r_vaddr.into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -478,8 +515,7 @@ impl<'a> Object<'a> {
                         buffer.write_pod(&xcoff_rel);
                     } else {
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: ((section_offsets[index].address + reloc.offset) as u32)
-                                .into(),
+                            r_vaddr: (r_vaddr as u32).into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -494,9 +530,9 @@ impl<'a> Object<'a> {
         debug_assert_eq!(symtab_offset, buffer.count());
         for (index, symbol) in self.symbols.iter().enumerate() {
             let n_value = if let SymbolSection::Section(id) = symbol.section {
-                section_offsets[id.0].address + symbol.value
+                add_address(section_offsets[id.0].address, symbol.value, "symbol value")?
             } else {
-                symbol.value
+                check_word(symbol.value, "symbol value")?
             };
             let n_scnum = match symbol.section {
                 SymbolSection::None => {
@@ -590,7 +626,7 @@ impl<'a> Object<'a> {
                 {
                     symbol_offsets[containing_csect.0].index as u64
                 } else {
-                    symbol.size
+                    check_word(symbol.size, "symbol size")?
                 };
                 if is_64 {
                     let csect_aux = xcoff::CsectAux64 {
-- 
2.43.0


From 2306c8beda88643ee8fa289090ee4445820dd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 49/93] fix: correct the ELF relocation for a Sharc type B
 6-bit relative address

The writer used the type A relocation, and the reader reported a size of 16.
---
 src/read/elf/relocation.rs | 2 +-
 src/write/elf/object.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 131f040..e8a5bc0 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -514,7 +514,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_SHARC_DATA6_VISA_V3 => (K::Absolute, E::SharcTypeB, 6),
             elf::R_SHARC_DATA7_VISA_V3 => (K::Absolute, E::SharcTypeB, 7),
             elf::R_SHARC_DATA16_VISA_V3 => (K::Absolute, E::SharcTypeB, 16),
-            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 16),
+            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 6),
             elf::R_SHARC_ADDR_VAR16_V3 => (K::Absolute, E::Generic, 16),
             _ => unknown,
         },
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 4d384c6..e7fc29c 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -497,7 +497,7 @@ impl<'a> Object<'a> {
                 (K::Absolute, E::Generic, 32) => elf::R_SHARC_ADDR_VAR_V3,
                 (K::Relative, E::SharcTypeA, 24) => elf::R_SHARC_PCRLONG_V3,
                 (K::Relative, E::SharcTypeA, 6) => elf::R_SHARC_PCRSHORT_V3,
-                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCRSHORT_V3,
+                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCR6_VISA_V3,
                 (K::Absolute, E::Generic, 16) => elf::R_SHARC_ADDR_VAR16_V3,
                 (K::Absolute, E::SharcTypeA, 16) => elf::R_SHARC_DATA16_V3,
                 (K::Absolute, E::SharcTypeB, 16) => elf::R_SHARC_DATA16_VISA_V3,
-- 
2.43.0


From e0be88f957f6b66ceeb7606caa16bf424d191dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:28 +0000
Subject: [PATCH 50/93] fix: only use 32-bit fields for Mach-O ARM64 branches

---
 src/write/macho/object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 260445f..f7cf601 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -377,8 +377,8 @@ impl<'a> Object<'a> {
                     reloc.addend -= reloc.offset as i64;
                     (false, macho::ARM64_RELOC_UNSIGNED)
                 }
-                (K::Relative, E::AArch64Call) => (true, macho::ARM64_RELOC_BRANCH26),
-                (K::PltRelative, E::Generic | E::AArch64Call) => {
+                (K::Relative, E::AArch64Call) if size == 32 => (true, macho::ARM64_RELOC_BRANCH26),
+                (K::PltRelative, E::Generic | E::AArch64Call) if size == 32 => {
                     (true, macho::ARM64_RELOC_BRANCH26)
                 }
                 (K::GotRelative, E::Generic) => (true, macho::ARM64_RELOC_POINTER_TO_GOT),
-- 
2.43.0


From af3a058c1c6d7b9921757eb4ad3f73d9a021736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 51/93] fix: report relocation addends that overflow when
 adjusted

---
 src/write/coff/object.rs  |  2 +-
 src/write/macho/object.rs |  4 ++--
 src/write/mod.rs          | 12 ++++++++++++
 src/write/xcoff.rs        |  2 +-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 5f8427a..3a9ba0d 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -296,7 +296,7 @@ impl<'a> Object<'a> {
             Architecture::PowerPc | Architecture::PowerPc64 => 0,
             _ => return Err(Error(format!("unimplemented relocation {:?}", relocation))),
         };
-        relocation.addend += offset;
+        relocation.adjust_addend(offset)?;
         Ok(true)
     }
 
diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index f7cf601..7d4c0f6 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -374,7 +374,7 @@ impl<'a> Object<'a> {
                     // use ARM64_RELOC_SUBTRACTOR instead.
                     reloc.subtractor = Some(self.section_symbol(section));
                     // S - (section + offset) + A = S - section + (A - offset)
-                    reloc.addend -= reloc.offset as i64;
+                    reloc.adjust_addend((reloc.offset as i64).wrapping_neg())?;
                     (false, macho::ARM64_RELOC_UNSIGNED)
                 }
                 (K::Relative, E::AArch64Call) if size == 32 => (true, macho::ARM64_RELOC_BRANCH26),
@@ -431,7 +431,7 @@ impl<'a> Object<'a> {
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
             };
-            relocation.addend += pcrel_offset;
+            relocation.adjust_addend(pcrel_offset)?;
         }
         // Determine if addend is implicit.
         let implicit = if matches!(
diff --git a/src/write/mod.rs b/src/write/mod.rs
index f8bf2b3..28e0a8b 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -1136,6 +1136,18 @@ pub(crate) struct RelocationInternal {
     flags: RelocationFlags,
 }
 
+impl RelocationInternal {
+    /// Add a format specific adjustment to the addend.
+    #[cfg(any(feature = "coff", feature = "macho", feature = "xcoff"))]
+    fn adjust_addend(&mut self, adjustment: i64) -> Result<()> {
+        self.addend = self
+            .addend
+            .checked_add(adjustment)
+            .ok_or_else(|| Error(format!("relocation addend is too large {:?}", self)))?;
+        Ok(())
+    }
+}
+
 impl From<Relocation> for RelocationInternal {
     fn from(value: Relocation) -> Self {
         RelocationInternal {
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 1991f0f..5712997 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -207,7 +207,7 @@ impl<'a> Object<'a> {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
         if r_rtype == xcoff::R_REL {
-            relocation.addend += 4;
+            relocation.adjust_addend(4)?;
         }
         Ok(true)
     }
-- 
2.43.0


From 4c2417a60e378f670b1f96541fecb980f1768bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 52/93] fix: index deleted sections by ID when deleting Mach-O
 relocations

---
 src/build/macho.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..92fecb7 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1151,11 +1151,11 @@ impl<'data> Builder<'data> {
     /// Delete relocations that refer to deleted symbols.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
-            .collect::<Vec<bool>>();
+        // This is indexed by section ID, so it must include deleted sections.
+        let mut sections = vec![true; self.sections.len()];
+        for section in &self.sections {
+            sections[section.id.0] = false;
+        }
         for section in &mut self.sections {
             section
                 .relocations
-- 
2.43.0


From 7d1f1460154bc8ed97df8af50c769ba6792bc6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 53/93] fix: use the written index of Mach-O segments after
 deleting some

---
 src/build/macho.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 92fecb7..11906a5 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -621,7 +621,10 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => {
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
+                    encoder.segment_command_size(out_segment.nsects)
+                }
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -807,7 +810,7 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let out_segment = &mut out_segments[out_segments_index[id.0].unwrap()];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -845,7 +848,7 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From 7c2be18bca58df6471dd5a90f9ffe36d7c2184bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 54/93] fix: write the addresses that are assigned to Mach-O
 object sections

---
 src/build/macho.rs | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 11906a5..df0ade4 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -679,6 +679,30 @@ impl<'data> Builder<'data> {
             }
             out_segment.vmsize = address;
 
+            // The data being relocated may contain addresses, which we can't update.
+            let moved = |index: usize| {
+                let out_section: &SectionOut = &out_sections[index];
+                out_section.address != self.sections.get(out_section.id).addr
+            };
+            for (index, out_section) in out_sections.iter().enumerate() {
+                for relocation in &self.sections.get(out_section.id).relocations {
+                    let invalid = match relocation.target {
+                        RelocationTarget::Section(id) => {
+                            moved(out_sections_index[id.0].unwrap() - 1)
+                                || (relocation.r_pcrel && moved(index))
+                        }
+                        RelocationTarget::Symbol(_) => {
+                            relocation.r_pcrel && !self.is_64 && moved(index)
+                        }
+                    };
+                    if invalid {
+                        return Err(Error::new(
+                            "Unsupported relocation for section with modified address",
+                        ));
+                    }
+                }
+            }
+
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 let count = section.relocations.len();
@@ -868,7 +892,7 @@ impl<'data> Builder<'data> {
                         let header = &write::macho::SectionHeader {
                             sectname: section.sectname,
                             segname: section.segname,
-                            addr: section.addr,
+                            addr: out_section.address,
                             size: section.data.size() as u64,
                             offset: out_section.offset as u32,
                             align: section.align,
@@ -1065,18 +1089,22 @@ impl<'data> Builder<'data> {
         buffer.resize(symoff);
         for out_symbol in &out_symbols {
             let symbol = self.symbols.get(out_symbol.id);
-            let n_sect = if let Some(id) = symbol.section {
-                out_sections_index[id.0].unwrap_or(0) as u8
-            } else {
-                symbol.n_sect
-            };
+            let mut n_sect = symbol.n_sect;
+            let mut n_value = symbol.n_value;
+            if let Some(id) = symbol.section {
+                let section_index = out_sections_index[id.0].unwrap();
+                n_sect = section_index as u8;
+                // The section address may have been reassigned.
+                let address = out_sections[section_index - 1].address;
+                n_value = n_value.wrapping_add(address.wrapping_sub(self.sections.get(id).addr));
+            }
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
             let nlist = &write::macho::Nlist {
                 n_strx,
                 n_type: symbol.n_type,
                 n_sect,
                 n_desc: symbol.n_desc,
-                n_value: symbol.n_value,
+                n_value,
             };
             encoder.nlist(buffer, nlist);
         }
-- 
2.43.0


From c3923ac479ad16146ed05987053ab2931aa7d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 55/93] fix: refuse Mach-O sections that overlap the load
 commands

---
 src/build/macho.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index df0ade4..5c3e9d6 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -745,6 +745,12 @@ impl<'data> Builder<'data> {
                     match &section.data {
                         SectionData::Data(data) => {
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
+                            if out_section.offset < command_offset + sizeofcmds {
+                                return Err(Error::new(format!(
+                                    "Section at address {:#x} overlaps load commands",
+                                    section.addr
+                                )));
+                            }
                             out_segment.size = (section.addr - segment.vmaddr) + data.len() as u64;
                         }
                         SectionData::UninitializedData(_) => {
-- 
2.43.0


From 1060c45c5ec9d10b496e036c260337e0a5baac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 56/93] fix: refuse uninitialized Mach-O sections whose size
 would be truncated

---
 src/build/macho.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 5c3e9d6..082f634 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -340,7 +340,9 @@ impl<'data> Builder<'data> {
         let section_data = if section.file_size(endian).is_some() {
             SectionData::Data(section.data(endian, data, offset)?.into())
         } else {
-            SectionData::UninitializedData(size as u32)
+            let size = u32::try_from(size)
+                .map_err(|_| Error::new("Unsupported size for uninitialized section"))?;
+            SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
-- 
2.43.0


From 01a0299010db91683b758cc0ef35e0460aa56278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 57/93] fix: check for overflow in the Mach-O builder layout

---
 src/build/macho.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 082f634..e8e2616 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -654,6 +654,18 @@ impl<'data> Builder<'data> {
                 return Err(Error::new("Mach-O object must have single unnamed segment"));
             }
 
+            // Larger values can't be honoured in a file, and could cause overflow.
+            let section_align = |section: &Section<'_>| {
+                if section.align < 32 {
+                    Ok(1 << section.align)
+                } else {
+                    Err(Error::new(format!(
+                        "Unsupported section alignment {}",
+                        section.align
+                    )))
+                }
+            };
+
             // Section data can immediately follow the load commands without any alignment padding.
             let segment_file_offset = offset.0;
             // Reserve segment data in the same order as `segment.sections`.
@@ -662,8 +674,7 @@ impl<'data> Builder<'data> {
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::Data(data) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
+                    address = write::align(address, section_align(section)?);
                     out_section.address = address;
                     out_section.offset = segment_file_offset + address;
                     address += data.len() as u64;
@@ -673,8 +684,7 @@ impl<'data> Builder<'data> {
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::UninitializedData(size) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
+                    address = write::align(address, section_align(section)?);
                     out_section.address = address;
                     address += u64::from(*size);
                 }
@@ -743,9 +753,12 @@ impl<'data> Builder<'data> {
                             section.addr, address
                         )));
                     }
-                    address = section.addr + section.data.size() as u64;
+                    address = section
+                        .addr
+                        .checked_add(section.data.size() as u64)
+                        .ok_or_else(|| Error::new("Section address overflow"))?;
                     match &section.data {
-                        SectionData::Data(data) => {
+                        SectionData::Data(_) => {
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
                             if out_section.offset < command_offset + sizeofcmds {
                                 return Err(Error::new(format!(
@@ -753,7 +766,13 @@ impl<'data> Builder<'data> {
                                     section.addr
                                 )));
                             }
-                            out_segment.size = (section.addr - segment.vmaddr) + data.len() as u64;
+                            out_segment.size = address - segment.vmaddr;
+                            if out_segment.size > u64::from(u32::MAX) {
+                                return Err(Error::new(format!(
+                                    "Segment size overflow: {:#x}",
+                                    out_segment.size
+                                )));
+                            }
                         }
                         SectionData::UninitializedData(_) => {
                             out_section.offset = 0;
@@ -765,7 +784,10 @@ impl<'data> Builder<'data> {
                     }
                 }
 
-                let segment_end = segment.vmaddr + segment.vmsize;
+                let segment_end = segment
+                    .vmaddr
+                    .checked_add(segment.vmsize)
+                    .ok_or_else(|| Error::new("Segment address overflow"))?;
                 if segment_end < address {
                     return Err(Error::new(format!(
                         "Segment address range must contain sections: {segment_end:#x} < {address:#x}"
-- 
2.43.0


From e32fba19a7347e92120831ed959c0a9364ab44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 58/93] fix: refuse Mach-O indirect symbols that refer to
 deleted symbols

---
 src/build/macho.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index e8e2616..d73ab4d 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -594,6 +594,15 @@ impl<'data> Builder<'data> {
                 return Err(Error::new("Section is not referenced by a segment"));
             }
         }
+        for section in &self.sections {
+            for indirect_symbol in &section.indirect_symbols {
+                if let IndirectSymbol::Symbol(id) = indirect_symbol {
+                    if out_symbols_index[id.0].is_none() {
+                        return Err(Error::new("Indirect symbol refers to a deleted symbol"));
+                    }
+                }
+            }
+        }
         let mut have_symtab = false;
         let mut dylib_referenced = vec![false; self.dylibs.len()];
         for command in &self.commands {
@@ -1147,7 +1156,8 @@ impl<'data> Builder<'data> {
                     let indirect_symbol = match indirect_symbol {
                         IndirectSymbol::Flags(flags) => *flags,
                         IndirectSymbol::Symbol(symbol_id) => {
-                            let symbol_index = out_symbols_index[symbol_id.0].unwrap_or(0);
+                            // We checked for deleted symbols already.
+                            let symbol_index = out_symbols_index[symbol_id.0].unwrap();
                             macho::IndirectSymbol(symbol_index as u32)
                         }
                     };
-- 
2.43.0


From 8dd5276d25dcbd483d4be5530d3ebbc342d06731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 59/93] fix: refuse duplicate Mach-O symbol tables in the
 builder

---
 src/build/macho.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index d73ab4d..37d51b1 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -136,6 +136,8 @@ impl<'data> Builder<'data> {
             dylibs_len: 0,
             indirect_symbols: &[][..],
         };
+        let mut have_symtab = false;
+        let mut have_dysymtab = false;
         let mut page_size_bits = builder.page_size.trailing_zeros();
         let mut commands = header.load_commands(endian, data, 0)?;
         while let Some(command) = commands.next()? {
@@ -152,9 +154,17 @@ impl<'data> Builder<'data> {
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
                 LoadCommandVariant::Symtab(symtab) => {
+                    if have_symtab {
+                        return Err(Error::new("Multiple LC_SYMTAB load commands"));
+                    }
+                    have_symtab = true;
                     state.symbols_len = symtab.nsyms.get(endian) as usize;
                 }
                 LoadCommandVariant::Dysymtab(dysymtab) => {
+                    if have_dysymtab {
+                        return Err(Error::new("Multiple LC_DYSYMTAB load commands"));
+                    }
+                    have_dysymtab = true;
                     state.indirect_symbols = dysymtab.indirect_symbols(endian, data)?;
                 }
                 LoadCommandVariant::Dylib(_) => {
-- 
2.43.0


From 5630e279f12c4afdecb27f397a5519ec8c086b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 60/93] fix: refuse scattered relocations in the Mach-O builder

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 37d51b1..0ea6378 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -356,6 +356,9 @@ impl<'data> Builder<'data> {
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
+            if relocation.r_scattered(endian, self.header.cputype) {
+                return Err(Error::new("Unimplemented scattered relocation"));
+            }
             let relocation = relocation.info(endian);
             let r_symbolnum = relocation.r_symbolnum as usize;
             let target = if relocation.r_extern {
-- 
2.43.0


From 1345ee6e8f78525b02bc055d95c079478d48d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 61/93] fix: handle any section alignment in the ELF builder

---
 src/build/elf.rs | 65 +++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..1b2f124 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -762,11 +762,20 @@ impl<'data> Builder<'data> {
 
         struct Offset(u64);
         impl Offset {
-            fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
-                let offset = self.0;
-                self.0 += size;
-                (offset, size)
+            fn reserve(&mut self, size: u64, align: u64) -> Result<(u64, u64)> {
+                let offset = if align <= 1 {
+                    Some(self.0)
+                } else if align.is_power_of_two() {
+                    self.0.checked_next_multiple_of(align)
+                } else {
+                    None
+                };
+                let offset = offset
+                    .ok_or_else(|| Error(format!("Unsupported section alignment {align:#x}")))?;
+                self.0 = offset
+                    .checked_add(size)
+                    .ok_or_else(|| Error(format!("File size overflow: {offset:#x}")))?;
+                Ok((offset, size))
             }
         }
 
@@ -1173,7 +1182,7 @@ impl<'data> Builder<'data> {
             u32::try_from(self.segments.count()).map_err(|_| Error::new("Too many segments"))?;
         if segment_num != 0 {
             let size = u64::from(segment_num) * encoder.program_header_size();
-            e_phoff = offset.reserve(size, address_size).0;
+            e_phoff = offset.reserve(size, address_size)?.0;
             // TODO: support program headers in other locations.
             if self.header.e_phoff != e_phoff {
                 return Err(Error(format!(
@@ -1228,33 +1237,33 @@ impl<'data> Builder<'data> {
                 offset.0 = section.sh_offset;
                 out_section.set_range(match &section.data {
                     SectionData::Data(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::DynamicRelocation(relocations) => {
                         let size = relocations.len() as u64
                             * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::Note(data) => {
-                        offset.reserve(data.len() as u64, section.sh_addralign)
+                        offset.reserve(data.len() as u64, section.sh_addralign)?
                     }
                     SectionData::Dynamic(dynamics) => {
                         let size = (1 + dynamics.len() as u64) * encoder.dyn_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicSymbol => {
                         dynsym_addr = Some(section.sh_addr);
                         let size = u64::from(dynsym_num) * encoder.sym_size();
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::DynamicString => {
                         dynstr_addr = Some(section.sh_addr);
-                        offset.reserve(dynstr_len.into(), 1)
+                        offset.reserve(dynstr_len.into(), 1)?
                     }
                     SectionData::Hash => {
                         hash_addr = Some(section.sh_addr);
                         let size = encoder.hash_size(self.hash_bucket_count, hash_chain_count);
-                        offset.reserve(size, write::elf::ALIGN_HASH)
+                        offset.reserve(size, write::elf::ALIGN_HASH)?
                     }
                     SectionData::GnuHash => {
                         gnu_hash_addr = Some(section.sh_addr);
@@ -1263,22 +1272,22 @@ impl<'data> Builder<'data> {
                             self.gnu_hash_bucket_count,
                             gnu_hash_symbol_count,
                         );
-                        offset.reserve(size, address_size)
+                        offset.reserve(size, address_size)?
                     }
                     SectionData::GnuVersym => {
                         versym_addr = Some(section.sh_addr);
                         let size = encoder.gnu_versym_size(dynsym_num);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERSYM)?
                     }
                     SectionData::GnuVerdef => {
                         verdef_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verdef_size(verdef_count, verdaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERDEF)?
                     }
                     SectionData::GnuVerneed => {
                         verneed_addr = Some(section.sh_addr);
                         let size = encoder.gnu_verneed_size(verneed_count, vernaux_count);
-                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)
+                        offset.reserve(size, write::elf::ALIGN_GNU_VERNEED)?
                     }
                     _ => {
                         return Err(Error(format!(
@@ -1303,11 +1312,15 @@ impl<'data> Builder<'data> {
                 continue;
             }
             out_section.set_range(match &section.data {
-                SectionData::Data(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Data(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::UninitializedData(len) => (offset.0, *len),
-                SectionData::Note(data) => offset.reserve(data.len() as u64, section.sh_addralign),
+                SectionData::Note(data) => {
+                    offset.reserve(data.len() as u64, section.sh_addralign)?
+                }
                 SectionData::Attributes(_) => {
-                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)
+                    offset.reserve(out_section.attributes.len() as u64, section.sh_addralign)?
                 }
                 // These are handled elsewhere.
                 SectionData::Relocation(_)
@@ -1328,15 +1341,15 @@ impl<'data> Builder<'data> {
 
         if symtab_index != 0 {
             let size = u64::from(sym_num) * encoder.sym_size();
-            let range = offset.reserve(size, address_size);
+            let range = offset.reserve(size, address_size)?;
             out_sections[symtab_index as usize - 1].set_range(range);
         }
         if symtab_shndx_index != 0 {
-            let range = offset.reserve(u64::from(sym_num) * 4, 4);
+            let range = offset.reserve(u64::from(sym_num) * 4, 4)?;
             out_sections[symtab_shndx_index as usize - 1].set_range(range);
         }
         if strtab_index != 0 {
-            let range = offset.reserve(strtab_len.into(), 1);
+            let range = offset.reserve(strtab_len.into(), 1)?;
             out_sections[strtab_index as usize - 1].set_range(range);
         }
 
@@ -1351,16 +1364,16 @@ impl<'data> Builder<'data> {
             };
             let size =
                 relocations.len() as u64 * encoder.rel_size(section.sh_type == elf::SHT_RELA);
-            out_section.set_range(offset.reserve(size, address_size));
+            out_section.set_range(offset.reserve(size, address_size)?);
         }
 
         if shstrtab_index != 0 {
-            let range = offset.reserve(shstrtab_len.into(), 1);
+            let range = offset.reserve(shstrtab_len.into(), 1)?;
             out_sections[shstrtab_index as usize - 1].set_range(range);
         }
         let e_shoff = if section_num != 0 {
             let size = section_num as u64 * encoder.section_header_size();
-            offset.reserve(size, address_size).0
+            offset.reserve(size, address_size)?.0
         } else {
             0
         };
-- 
2.43.0


From 0195230386ae0f3fe09865bbe9cd13b4a07e2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 62/93] fix: refuse invalid hash table parameters in the ELF
 builder

---
 src/build/elf.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 1b2f124..4c99756 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -208,6 +208,9 @@ impl<'data> Builder<'data> {
             } else {
                 SectionData::Data(Bytes::default())
             };
+            // The tables will be regenerated, but check that the header matches their size.
+            section.hash(endian, data)?;
+            section.gnu_hash(endian, data)?;
             if let Some(hash) = section.hash_header(endian, data)? {
                 builder.hash_bucket_count = hash.bucket_count.get(endian);
             }
@@ -959,6 +962,15 @@ impl<'data> Builder<'data> {
             if self.gnu_hash_bucket_count == 0 {
                 return Err(Error::new(".gnu.hash bucket count is zero"));
             }
+            if self.gnu_hash_bloom_count == 0 {
+                return Err(Error::new(".gnu.hash bloom count is zero"));
+            }
+            if self.gnu_hash_bloom_shift >= 32 {
+                return Err(Error(format!(
+                    "Unsupported .gnu.hash bloom shift {}",
+                    self.gnu_hash_bloom_shift
+                )));
+            }
             // TODO: recalculate bucket_count?
             out_dynsyms[num_local_dynamic..].sort_by_key(|sym| match sym.gnu_hash {
                 None => (0, 0),
-- 
2.43.0


From ccbcf43e01ed0af72213b5af27ed2f6b2e2081e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:05 +0000
Subject: [PATCH 63/93] fix: return an error instead of aborting if an output
 buffer can't be allocated

---
 src/write/util.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/write/util.rs b/src/write/util.rs
index e7265e7..ec9b459 100644
--- a/src/write/util.rs
+++ b/src/write/util.rs
@@ -182,8 +182,7 @@ impl WritableBuffer for Vec<u8> {
     fn reserve(&mut self, size: u64) -> Result<(), ()> {
         debug_assert!(self.is_empty());
         let size = usize::try_from(size).map_err(|_| ())?;
-        self.reserve(size);
-        Ok(())
+        self.try_reserve(size).map_err(|_| ())
     }
 
     #[inline]
-- 
2.43.0


From f25c2a5d317201cdfd05adda7114be16b5677e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 64/93] fix: keep ELF relocation sections linked to their
 target without SHF_INFO_LINK

---
 src/build/elf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 4c99756..b867ae9 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -331,7 +331,11 @@ impl<'data> Builder<'data> {
                 Some(SectionId(sh_link as usize - 1))
             };
             let sh_info = section.sh_info(endian);
-            let sh_info_section = if sh_info == 0 || !sh_flags.contains(elf::SHF_INFO_LINK) {
+            // `SHF_INFO_LINK` is optional for relocation sections.
+            let is_info_link = sh_flags.contains(elf::SHF_INFO_LINK)
+                || (matches!(section.sh_type(endian), elf::SHT_REL | elf::SHT_RELA)
+                    && !sh_flags.contains(elf::SHF_ALLOC));
+            let sh_info_section = if sh_info == 0 || !is_info_link {
                 None
             } else {
                 if sh_info as usize >= sections.len() {
-- 
2.43.0


From a25d50d9dcea4cbfb7ec4d6f53dfe5630238e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:53 +0000
Subject: [PATCH 65/93] fix: allow rewriting ELF relocatable objects

---
 crates/rewrite/src/elf.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4b7131f..4cf1b18 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -651,6 +651,12 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     builder.delete_unused_versions();
     builder.set_section_sizes();
 
+    if builder.segments.is_empty() {
+        // Relocatable object. Sections don't have addresses, and their file offsets are
+        // assigned when writing.
+        return Ok(());
+    }
+
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
 
-- 
2.43.0


From f681dd3dc6c251a7cf55e85f2f38142386e32478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:57 +0000
Subject: [PATCH 66/93] fix: update PT_PHDR when the ELF rewriter only deletes
 segments

---
 crates/rewrite/src/elf.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4cf1b18..5308dd4 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -664,6 +664,8 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
+            // Segments may have been deleted.
+            update_program_headers_segment(builder);
             return Ok(());
         }
 
@@ -804,19 +806,24 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             );
         }
 
-        // Update the PT_PHDR segment to include the new program headers.
-        let size = builder.program_headers_size();
-        for segment in &mut builder.segments {
-            if segment.p_type != elf::PT_PHDR {
-                continue;
-            }
-            segment.p_filesz = size;
-            segment.p_memsz = size;
-        }
+        // Include the new program headers.
+        update_program_headers_segment(builder);
         return Ok(());
     }
 }
 
+/// Update the size of the `PT_PHDR` segment to match the number of program headers.
+fn update_program_headers_segment(builder: &mut build::elf::Builder) {
+    let size = builder.program_headers_size();
+    for segment in &mut builder.segments {
+        if segment.p_type != elf::PT_PHDR {
+            continue;
+        }
+        segment.p_filesz = size;
+        segment.p_memsz = size;
+    }
+}
+
 fn find_move_sections(
     builder: &build::elf::Builder,
     added_segments: usize,
-- 
2.43.0


From fca6e5979c127d5094ffeeb509beee6999e945a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 67/93] fix: don't let the ELF rewriter grow sections past the
 file range of their segment

---
 crates/rewrite/src/elf.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 5308dd4..8e02f5a 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -880,6 +880,25 @@ fn find_move_sections(
             size: 0,
             move_priority: 0,
         });
+        // Also prevent sections with data from growing past the end of the file range,
+        // unless that is in the middle of uninitialized data.
+        let file_end = segment.p_vaddr + segment.p_filesz;
+        if segment.p_filesz < segment.p_memsz
+            && !builder.sections.iter().any(|section| {
+                section.is_alloc()
+                    && section.sh_type == elf::SHT_NOBITS
+                    && section.sh_addr < file_end
+                    && section.sh_addr + section.sh_size > file_end
+            })
+        {
+            blocks.push(Block {
+                name: "segment file end".into(),
+                kind: BlockKind::Segment,
+                address: file_end,
+                size: 0,
+                move_priority: 0,
+            });
+        }
     }
     for section in &builder.sections {
         if !section.is_alloc() {
-- 
2.43.0


From d7bd85028ab4431bae8d3c92aa7767898529b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 68/93] fix: handle ELF section alignments of 0 in
 Segment::append_section

---
 src/build/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index b867ae9..644d39f 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2428,7 +2428,12 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            // Alignment may be 0 for sections without alignment requirements.
+            let align = if section.sh_addralign.is_power_of_two() {
+                section.sh_addralign
+            } else {
+                1
+            };
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
-- 
2.43.0


From 9f2df5254bbc64b3b1e7d382fb5542724b5aaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 69/93] fix: use the largest ELF segment alignment for segments
 added by the rewriter

---
 crates/rewrite/src/elf.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 8e02f5a..12a89c4 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -726,11 +726,24 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             let section = builder.sections.get(*id);
             (section.sh_addr, section.sh_size)
         });
+        // The new segments need the alignment of the existing segments, and must also be
+        // aligned enough that the file offset and the address of each section are congruent.
+        let load_align = builder
+            .segments
+            .iter()
+            .filter(|segment| segment.p_type == elf::PT_LOAD)
+            .map(|segment| segment.p_align)
+            .chain(
+                move_sections
+                    .iter()
+                    .map(|id| builder.sections.get(*id).sh_addralign),
+            )
+            .filter(|align| align.is_power_of_two())
+            .max()
+            .unwrap_or(1);
         for p_flags in added_p_flags {
             // TODO: reuse segments that only contain movable sections
-            let segment = builder
-                .segments
-                .add_load_segment(p_flags, builder.load_align);
+            let segment = builder.segments.add_load_segment(p_flags, load_align);
             for id in &move_sections {
                 let section = builder.sections.get_mut(*id);
                 if p_flags == section.p_flags() {
-- 
2.43.0


From ffe93a931b32bf0b0884356392c3611a14377c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 70/93] fix: rewrite: update PT_INTERP and PT_DYNAMIC sizes
 when their section is resized in place

---
 crates/rewrite/src/elf.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 12a89c4..527e285 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -664,8 +664,8 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
-            // Segments may have been deleted.
-            update_program_headers_segment(builder);
+            // Segments may have been deleted, and sections may have been resized.
+            update_segment_sizes(builder);
             return Ok(());
         }
 
@@ -819,19 +819,35 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             );
         }
 
-        // Include the new program headers.
-        update_program_headers_segment(builder);
+        // Include the new program headers and the resized sections.
+        update_segment_sizes(builder);
         return Ok(());
     }
 }
 
-/// Update the size of the `PT_PHDR` segment to match the number of program headers.
-fn update_program_headers_segment(builder: &mut build::elf::Builder) {
-    let size = builder.program_headers_size();
+/// Update the sizes of the segments that are determined by their contents.
+///
+/// This is the `PT_PHDR` segment, which has the size of the program headers, and
+/// the `PT_INTERP` and `PT_DYNAMIC` segments, which have the size of their section.
+fn update_segment_sizes(builder: &mut build::elf::Builder) {
+    let program_headers_size = builder.program_headers_size();
+    let sections = &builder.sections;
     for segment in &mut builder.segments {
-        if segment.p_type != elf::PT_PHDR {
-            continue;
-        }
+        let size = match segment.p_type {
+            elf::PT_PHDR => program_headers_size,
+            elf::PT_INTERP => match segment.sections.first() {
+                Some(id) => sections.get(*id).sh_size,
+                None => continue,
+            },
+            elf::PT_DYNAMIC => {
+                let mut sections = segment.sections.iter().map(|id| sections.get(*id));
+                match sections.find(|section| section.sh_type == elf::SHT_DYNAMIC) {
+                    Some(section) => section.sh_size,
+                    None => continue,
+                }
+            }
+            _ => continue,
+        };
         segment.p_filesz = size;
         segment.p_memsz = size;
     }
-- 
2.43.0


From b199879cec2f41fa869879651be381c1150804cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 71/93] fix: update the section of Mach-O debugging symbols in
 the builder

---
 src/build/macho.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 0ea6378..a6c2527 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -437,8 +437,27 @@ impl<'data> Builder<'data> {
     {
         for nlist in symbols.iter() {
             let id = self.symbols.next_id();
-            let section = if nlist.n_type().typ() == macho::N_SECT {
-                let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
+            let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
+            let section = if let Some(stab) = nlist.n_type().stab() {
+                // Some debugging entries also have an address in a section.
+                match stab {
+                    macho::N_FUN
+                    | macho::N_STSYM
+                    | macho::N_LCSYM
+                    | macho::N_BNSYM
+                    | macho::N_SLINE
+                    | macho::N_ENSYM
+                    | macho::N_SO
+                    | macho::N_SOL
+                    | macho::N_ENTRY
+                    | macho::N_ECOML
+                        if section_id < state.sections_len =>
+                    {
+                        Some(SectionId(section_id))
+                    }
+                    _ => None,
+                }
+            } else if nlist.n_type().typ() == macho::N_SECT {
                 if section_id >= state.sections_len {
                     return Err(Error::new("Invalid symbol section index"));
                 }
-- 
2.43.0


From 77faee48c01cd9ddae23625a6fee0af637b5923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 72/93] fix: don't write Mach-O segments with a file size
 larger than their memory size

---
 src/build/macho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index a6c2527..6accd09 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -839,9 +839,11 @@ impl<'data> Builder<'data> {
 
                 if out_segment.size > 0 {
                     out_segment.offset = segment_offset;
-                    out_segment.size = write::align(out_segment.size, self.page_size as u64);
-                    segment_offset += out_segment.size;
+                    let size = write::align(out_segment.size, self.page_size as u64);
+                    segment_offset += size;
                     offset.0 = segment_offset;
+                    // The segment may be smaller than the space allocated for it in the file.
+                    out_segment.size = size.min(out_segment.vmsize);
                 }
             }
         }
-- 
2.43.0


From aeb5e502c82071ecb70c5f02d111d8a36dd4a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 73/93] fix: return an error for multiple Mach-O code
 signatures in the builder

---
 src/build/macho.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 6accd09..9561f97 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -896,6 +896,9 @@ impl<'data> Builder<'data> {
         for command in &self.commands {
             if let LoadCommand::LinkeditData { cmd, data } = command {
                 if *cmd == macho::LC_CODE_SIGNATURE {
+                    if code_signature_offset != 0 {
+                        return Err(Error::new("Multiple LC_CODE_SIGNATURE load commands"));
+                    }
                     code_signature_offset = offset.reserve(data.len() as u64, 16).0;
                 }
             }
-- 
2.43.0


From 7f4f4de17f53deff1f2dded8216daf8f91038019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 74/93] fix: delete both Mach-O relocations in a pair when one
 is an orphan

---
 src/build/macho.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 9561f97..3345f5a 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1257,6 +1257,8 @@ impl<'data> Builder<'data> {
     }
 
     /// Delete relocations that refer to deleted symbols.
+    ///
+    /// Both relocations in a pair are deleted if either of them is an orphan.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
         // This is indexed by section ID, so it must include deleted sections.
@@ -1264,13 +1266,34 @@ impl<'data> Builder<'data> {
         for section in &self.sections {
             sections[section.id.0] = false;
         }
+        let orphan = |relocation: &Relocation| match relocation.target {
+            RelocationTarget::Symbol(id) => symbols.get(id).delete,
+            RelocationTarget::Section(id) => sections[id.0],
+        };
+        let cputype = self.header.cputype;
+        // Return true if the relocation only has meaning in combination with the next relocation.
+        let has_pair = |relocation: &Relocation| match cputype {
+            macho::CPU_TYPE_X86_64 => relocation.r_type == macho::X86_64_RELOC_SUBTRACTOR,
+            macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => {
+                relocation.r_type == macho::ARM64_RELOC_SUBTRACTOR
+                    || relocation.r_type == macho::ARM64_RELOC_ADDEND
+            }
+            _ => false,
+        };
         for section in &mut self.sections {
-            section
-                .relocations
-                .retain(|relocation| match relocation.target {
-                    RelocationTarget::Symbol(id) => !symbols.get(id).delete,
-                    RelocationTarget::Section(id) => !sections[id.0],
-                });
+            if !section.relocations.iter().any(orphan) {
+                continue;
+            }
+            let mut relocations = Vec::with_capacity(section.relocations.len());
+            let mut rest = section.relocations.iter();
+            while let Some(first) = rest.next() {
+                let second = if has_pair(first) { rest.next() } else { None };
+                if !orphan(first) && !second.is_some_and(orphan) {
+                    relocations.push(*first);
+                    relocations.extend(second);
+                }
+            }
+            section.relocations = relocations;
         }
     }
 
-- 
2.43.0


From da48a7b1708e93b13da74b692d99eecf3b1bcdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 75/93] fix: terminate the list of ELF version definition names
 in the writer

---
 src/write/elf/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..3356a9d 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,8 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        // The first auxiliary entry is written below.
+        self.gnu_verdaux_remaining = verdef.aux_count - 1;
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From b2ee1eadbeef10e9f8d43fb95aeb3c1483f53c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 76/93] fix: use SHT_RELR for relative relocation section
 headers

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..656e0c7 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From 6ea3f39b58175987d6fb526b10fc1dedb59596a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:54 +0000
Subject: [PATCH 77/93] fix: write the number of line numbers of a COFF section

coff::Writer::write_section_header dropped SectionHeader::number_of_linenumbers
and wrote 0, although pointer_to_linenumbers was written.
---
 src/write/coff/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index 21ec24d..cc4b845 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -178,7 +178,7 @@ impl<'a> Writer<'a> {
             } else {
                 (section.number_of_relocations as u16).into()
             },
-            number_of_linenumbers: 0.into(),
+            number_of_linenumbers: section.number_of_linenumbers.into(),
             characteristics: section.characteristics.into(),
         };
         match section.name {
-- 
2.43.0


From 9e3ee20fc70faf5ebb7b150a925b4297b34f7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:51 +0000
Subject: [PATCH 78/93] fix: read COFF and XCOFF symbols without a name

A name offset of 0 means an empty name: the string table starts with its
size. The bytes of the size were returned as the name, also for unnamed
symbols that the object writer emitted.
---
 src/read/coff/symbol.rs  |  4 ++++
 src/read/xcoff/symbol.rs | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/read/coff/symbol.rs b/src/read/coff/symbol.rs
index 0cc1da9..af4dcb6 100644
--- a/src/read/coff/symbol.rs
+++ b/src/read/coff/symbol.rs
@@ -554,6 +554,10 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
         if name[0] == 0 {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
             let offset = u32::from_le_bytes(name[4..8].try_into().unwrap());
+            if offset == 0 {
+                // The string table starts with its size, so this is an empty name.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid COFF symbol name offset")
diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 2415802..00d0813 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -633,8 +633,13 @@ impl Symbol for xcoff::Symbol64 {
         &'data self,
         strings: StringTable<'data, R>,
     ) -> Result<&'data [u8]> {
+        let offset = self.n_offset.get(BE);
+        if offset == 0 {
+            // The string table starts with its size, so this is an empty name.
+            return Ok(&[]);
+        }
         strings
-            .get(self.n_offset.get(BE))
+            .get(offset)
             .read_error("Invalid XCOFF symbol name offset")
     }
 }
@@ -680,6 +685,10 @@ impl Symbol for xcoff::Symbol32 {
     ) -> Result<&'data [u8]> {
         if let Some(offset) = self.name_offset() {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
+            if offset == 0 {
+                // The string table starts with its size, so this is an empty name.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid XCOFF symbol name offset")
@@ -716,6 +725,10 @@ pub trait FileAux: Debug + Pod + read::private::Sealed {
     ) -> Result<&'data [u8]> {
         if let Some(offset) = self.name_offset() {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
+            if offset == 0 {
+                // The string table starts with its size, so this is an empty name.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid XCOFF symbol name offset")
-- 
2.43.0


From d2ea96217a2cd7fe4688cc59158deaa458ffef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 79/93] fix: refuse ELF32 relocation types, symbols and section
 flags that don't fit

---
 src/write/elf/object.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index e7fc29c..46bffff 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -887,6 +887,13 @@ impl<'a> Object<'a> {
                         check_word(reloc.addend as u64, "relocation addend")?;
                     }
                     let r_sym = symbol_offsets[reloc.symbol.0].index.0;
+                    // `r_info` has an 8-bit type and a 24-bit symbol for ELF32.
+                    if !is_64 && (r_type.0 > 0xff || r_sym > 0xff_ffff) {
+                        return Err(Error(format!(
+                            "relocation is too large for ELF32 {:?}",
+                            reloc
+                        )));
+                    }
                     writer.write_relocation(
                         is_rela,
                         &Rel {
@@ -937,6 +944,7 @@ impl<'a> Object<'a> {
             };
             check_word(section.size, "section size")?;
             check_word(section.align, "section alignment")?;
+            check_word(sh_flags.0, "section flags")?;
             writer.write_section_header(&SectionHeader {
                 sh_name: writer.section_name_offset(Some(section_offsets[index].str_id)),
                 sh_type,
-- 
2.43.0


From bbcc26a099bbf9ab3036c477d7291678774f07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 80/93] fix: refuse Mach-O relocation types and lengths that
 don't fit

---
 src/write/macho/object.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 7d4c0f6..881c2d2 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -451,10 +451,9 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn macho_relocation_size(&self, reloc: &RelocationInternal) -> Result<u8> {
-        if let RelocationFlags::MachO { r_length, .. } = reloc.flags {
-            Ok(8 << r_length)
-        } else {
-            Err(Error("invalid relocation flags".into()))
+        match reloc.flags {
+            RelocationFlags::MachO { r_length, .. } if r_length <= 3 => Ok(8 << r_length),
+            _ => Err(Error(format!("invalid relocation flags {:?}", reloc))),
         }
     }
 
@@ -810,6 +809,11 @@ impl<'a> Object<'a> {
                         return Err(Error("invalid relocation flags".into()));
                     };
 
+                    // `r_type` has 4 bits and `r_length` has 2 bits.
+                    if r_type.0 > 0xf || r_length > 3 {
+                        return Err(Error(format!("invalid relocation flags {:?}", reloc)));
+                    }
+
                     // `r_address` is signed.
                     if reloc.offset > i32::MAX as u64 {
                         return Err(Error(format!("relocation offset is too large {:?}", reloc)));
-- 
2.43.0


From 617e918f418b4a0fdfa0a72936b5577bfdd3931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 81/93] fix: refuse PE files that are too large

---
 src/write/pe.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/write/pe.rs b/src/write/pe.rs
index e81d779..845245b 100644
--- a/src/write/pe.rs
+++ b/src/write/pe.rs
@@ -196,6 +196,10 @@ impl<'a> Writer<'a> {
     pub fn write_custom_dos_header(&mut self, dos_header: &pe::ImageDosHeader) -> Result<()> {
         debug_assert_eq!(self.buffer.count(), 0);
 
+        if self.len > u64::from(u32::MAX) {
+            return Err(Error(format!("File size overflow: {:#x}", self.len)));
+        }
+
         // Start writing.
         self.buffer
             .reserve(self.len)
-- 
2.43.0


From f6cec256b65700be1caa401770d370027acd1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 82/93] fix: refuse values that don't fit in ELF32 in the ELF
 builder

---
 src/build/elf.rs | 83 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 644d39f..f8dfdee 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -1401,6 +1401,9 @@ impl<'data> Builder<'data> {
         if !self.is_64 && reserved_len > u64::from(u32::MAX) {
             return Err(Error(format!("File size overflow: {reserved_len:#x}")));
         }
+        if !self.is_64 {
+            self.check_words()?;
+        }
         buffer
             .reserve(reserved_len)
             .map_err(|_| Error(format!("Cannot allocate buffer length {reserved_len:#x}")))?;
@@ -1465,16 +1468,14 @@ impl<'data> Builder<'data> {
                             } else {
                                 0
                             };
-                            encoder.relocation(
-                                buffer,
-                                section.sh_type == elf::SHT_RELA,
-                                &write::elf::Rel {
-                                    r_offset: rel.r_offset,
-                                    r_sym,
-                                    r_type: rel.r_type,
-                                    r_addend: rel.r_addend,
-                                },
-                            );
+                            let rel = write::elf::Rel {
+                                r_offset: rel.r_offset,
+                                r_sym,
+                                r_type: rel.r_type,
+                                r_addend: rel.r_addend,
+                            };
+                            self.check_relocation(section, &rel)?;
+                            encoder.relocation(buffer, section.sh_type == elf::SHT_RELA, &rel);
                         }
                     }
                     SectionData::Note(data) => {
@@ -1772,6 +1773,7 @@ impl<'data> Builder<'data> {
                     r_type: rel.r_type,
                     r_addend: rel.r_addend,
                 };
+                self.check_relocation(section, &rel)?;
                 encoder.relocation(buffer, section.sh_type == elf::SHT_RELA, &rel);
             }
         }
@@ -1864,6 +1866,67 @@ impl<'data> Builder<'data> {
         Ok(())
     }
 
+    /// Check that values given by the user fit in the fields of a 32-bit file.
+    ///
+    /// Doesn't include values that are checked elsewhere: dynamic entries and relocations.
+    fn check_words(&self) -> Result<()> {
+        let check = |value: u64, what: &str| {
+            if value <= u64::from(u32::MAX) {
+                Ok(())
+            } else {
+                Err(Error(format!("{what} {value:#x} is too large for ELF32")))
+            }
+        };
+        check(self.header.e_entry, "e_entry")?;
+        for segment in &self.segments {
+            check(segment.p_offset, "p_offset")?;
+            check(segment.p_vaddr, "p_vaddr")?;
+            check(segment.p_paddr, "p_paddr")?;
+            check(segment.p_filesz, "p_filesz")?;
+            check(segment.p_memsz, "p_memsz")?;
+            check(segment.p_align, "p_align")?;
+        }
+        for section in &self.sections {
+            check(section.sh_flags.0, "sh_flags")?;
+            check(section.sh_addr, "sh_addr")?;
+            check(section.sh_addralign, "sh_addralign")?;
+            check(section.sh_entsize, "sh_entsize")?;
+            if let SectionData::UninitializedData(size) = section.data {
+                check(size, "sh_size")?;
+            }
+        }
+        for symbol in &self.symbols {
+            check(symbol.st_value, "st_value")?;
+            check(symbol.st_size, "st_size")?;
+        }
+        for symbol in &self.dynamic_symbols {
+            check(symbol.st_value, "st_value")?;
+            check(symbol.st_size, "st_size")?;
+        }
+        Ok(())
+    }
+
+    /// Check that a relocation fits in the fields of a 32-bit file.
+    fn check_relocation(&self, section: &Section<'data>, rel: &write::elf::Rel) -> Result<()> {
+        if self.is_64 {
+            return Ok(());
+        }
+        let addend_fits = section.sh_type != elf::SHT_RELA
+            || i32::try_from(rel.r_addend).is_ok()
+            || u32::try_from(rel.r_addend).is_ok();
+        if rel.r_offset > u64::from(u32::MAX)
+            || rel.r_sym > 0xff_ffff
+            || rel.r_type.0 > 0xff
+            || !addend_fits
+        {
+            return Err(Error(format!(
+                "Relocation in section '{}' is too large for ELF32",
+                section.name
+            )));
+        }
+        Ok(())
+    }
+
     /// Delete segments, symbols, relocations, and dynamics that refer
     /// to deleted items.
     ///
-- 
2.43.0


From d7c5f2b5dd7b0477e7501bf287b5f0126fd46530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 83/93] fix: refuse values that don't fit in the Mach-O builder

---
 src/build/macho.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 3345f5a..4fdb1ee 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -925,6 +925,29 @@ impl<'data> Builder<'data> {
         if reserved_len > u64::from(u32::MAX) {
             return Err(Error::new(format!("File size overflow: {reserved_len:#x}")));
         }
+        // Check that the remaining values fit in their fields.
+        let check_word = |value: u64, what: &str| {
+            if self.is_64 || value <= u64::from(u32::MAX) {
+                Ok(())
+            } else {
+                Err(Error::new(format!(
+                    "{what} {value:#x} is too large for 32-bit Mach-O"
+                )))
+            }
+        };
+        for out_segment in &out_segments {
+            let segment = self.segments.get(out_segment.id);
+            check_word(segment.vmaddr, "Segment address")?;
+            check_word(out_segment.vmsize, "Segment size")?;
+        }
+        for out_section in &out_sections {
+            check_word(out_section.address, "Section address")?;
+            for relocation in &self.sections.get(out_section.id).relocations {
+                if relocation.r_type.0 > 0xf || relocation.r_length > 3 {
+                    return Err(Error::new(format!("Invalid relocation {relocation:?}")));
+                }
+            }
+        }
         buffer
             .reserve(reserved_len)
             .map_err(|_| Error(format!("Cannot allocate buffer length {reserved_len:#x}")))?;
@@ -1167,6 +1190,7 @@ impl<'data> Builder<'data> {
             let symbol = self.symbols.get(out_symbol.id);
             let mut n_sect = symbol.n_sect;
             let mut n_value = symbol.n_value;
+            check_word(n_value, "Symbol value")?;
             if let Some(id) = symbol.section {
                 let section_index = out_sections_index[id.0].unwrap();
                 n_sect = section_index as u8;
-- 
2.43.0


From dc01950322a1e2f35a51612a301a5438101bbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 84/93] fix: overflow when a Mach-O section is too far from the
 start of its segment

---
 src/build/macho.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 4fdb1ee..8313852 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -800,7 +800,9 @@ impl<'data> Builder<'data> {
                         .ok_or_else(|| Error::new("Section address overflow"))?;
                     match &section.data {
                         SectionData::Data(_) => {
-                            out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
+                            out_section.offset = (section.addr - segment.vmaddr)
+                                .checked_add(segment_offset)
+                                .ok_or_else(|| Error::new("Section offset overflow"))?;
                             if out_section.offset < command_offset + sizeofcmds {
                                 return Err(Error::new(format!(
                                     "Section at address {:#x} overlaps load commands",
-- 
2.43.0


From 46c5d13a967777658e10c2a13ff13061beb180a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 85/93] fix: name STO_ALPHA_STD_GPLOAD instead of
 STO_ALPHA_NOPV and a remainder

---
 src/elf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c11ffa6..5693947 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -4290,10 +4290,11 @@ names! {
         SHF_ALPHA_GPREL = 0x1000_0000,
     };
     flags sto: SymbolOther(u8) = {
-        /// No PV required.
-        STO_ALPHA_NOPV = 0x80,
+        // This must be first because it includes the bit for `STO_ALPHA_NOPV`.
         /// PV only used for initial ldgp.
         STO_ALPHA_STD_GPLOAD = 0x88,
+        /// No PV required.
+        STO_ALPHA_NOPV = 0x80,
     };
     /// `Rel*::r_type` values for `EM_ALPHA`.
     consts r = pub NAMES_R_ALPHA: RelocationType(u32) = {
-- 
2.43.0


From bb048ea696e8d3c06fc95b5332bfe8ca6595a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:33 +0000
Subject: [PATCH 86/93] fix: keep earlier sections when extending an ELF
 segment downwards

---
 src/build/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index f8dfdee..b965db5 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2528,6 +2528,9 @@ impl<'data> Segment<'data> {
             self.p_memsz = section.sh_size;
         } else {
             if self.p_offset > section.sh_offset {
+                if self.p_filesz != 0 {
+                    self.p_filesz += self.p_offset - section.sh_offset;
+                }
                 self.p_offset = section.sh_offset;
             }
             let filesz = section.sh_offset + section_filesize - self.p_offset;
@@ -2535,6 +2538,7 @@ impl<'data> Segment<'data> {
                 self.p_filesz = filesz;
             }
             if self.p_vaddr > section.sh_addr {
+                self.p_memsz += self.p_vaddr - section.sh_addr;
                 self.p_vaddr = section.sh_addr;
                 self.p_paddr = section.sh_addr;
             }
-- 
2.43.0


From 4c0c0a59fe60bf71669639b27fb75b8857965a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 87/93] fix: panic when adding an ELF load segment with
 alignment 0

---
 src/build/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index b965db5..e1f37ac 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2623,8 +2623,11 @@ impl<'data> Segments<'data> {
         // No alignment is required for the segment file offset because sections
         // will add their alignment to the file offset when they are added.
         let offset = max_offset;
+        // An alignment of 0 means no alignment is required.
+        let addr_align = align.max(1);
         // The address must be chosen so that addr % align == offset % align.
-        let addr = ((max_addr + (align - 1)) & !(align - 1)) + (offset & (align - 1));
+        let addr =
+            ((max_addr + (addr_align - 1)) & !(addr_align - 1)) + (offset & (addr_align - 1));
 
         let segment = self.add();
         segment.p_type = elf::PT_LOAD;
-- 
2.43.0


From 60a761205bf99281f1d45beb89aeb9bb6b95547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 88/93] fix: 64-bit counts and offsets of archive symbol tables
 were truncated on 32-bit hosts

---
 src/read/archive.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/read/archive.rs b/src/read/archive.rs
index b09e4f4..1e9e0a5 100644
--- a/src/read/archive.rs
+++ b/src/read/archive.rs
@@ -802,7 +802,7 @@ impl<'data> ArchiveSymbolIterator<'data> {
             }
             ArchiveKind::Gnu64 => {
                 let offsets_count = data.read::<U64<BE>>()?.get(BE);
-                let offsets = data.read_slice::<U64<BE>>(offsets_count as usize)?;
+                let offsets = data.read_slice::<U64<BE>>(read_usize(offsets_count)?)?;
                 Ok(ArchiveSymbolIterator(SymbolIteratorInternal::Gnu64 {
                     offsets: offsets.iter(),
                     names: data,
@@ -820,9 +820,9 @@ impl<'data> ArchiveSymbolIterator<'data> {
             }
             ArchiveKind::Bsd64 => {
                 let offsets_size = data.read::<U64<LE>>()?.get(LE);
-                let offsets = data.read_slice::<[U64<LE>; 2]>(offsets_size as usize / 16)?;
+                let offsets = data.read_slice::<[U64<LE>; 2]>(read_usize(offsets_size / 16)?)?;
                 let names_size = data.read::<U64<LE>>()?.get(LE);
-                let names = data.read_bytes(names_size as usize)?;
+                let names = data.read_bytes(read_usize(names_size)?)?;
                 Ok(ArchiveSymbolIterator(SymbolIteratorInternal::Bsd64 {
                     offsets: offsets.iter(),
                     names,
@@ -892,8 +892,8 @@ impl<'data> Iterator for ArchiveSymbolIterator<'data> {
             SymbolIteratorInternal::Bsd64 { offsets, names } => {
                 let entry = offsets.next()?;
                 Some(
-                    names
-                        .read_string_at(entry[0].get(LE) as usize)
+                    read_usize(entry[0].get(LE))
+                        .and_then(|offset| names.read_string_at(offset))
                         .read_error("Invalid archive symbol name offset")
                         .map(|name| ArchiveSymbol {
                             name,
@@ -962,6 +962,11 @@ impl<'data> ArchiveSymbol<'data> {
 }
 
 // Ignores bytes starting from the first space.
+/// A count or offset that doesn't fit in a `usize` is past the end of any data.
+fn read_usize(value: u64) -> Result<usize, ()> {
+    value.try_into().map_err(|_| ())
+}
+
 fn parse_u64_digits(digits: &[u8], radix: u32) -> Option<u64> {
     if let [b' ', ..] = digits {
         return None;
-- 
2.43.0


From e0a6d0eba2533caa7a981675cfa08e4af4fa93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 89/93] fix: offsets and sizes in Mach-O exports tries and
 sizes of sections of indirect symbols were truncated on 32-bit hosts

---
 src/read/macho/exports_trie.rs | 4 ++--
 src/read/macho/section.rs      | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index fbfe24e..76af944 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -143,7 +143,7 @@ impl<'data> NodeIterator<'data> {
             .read_error("Too many exports trie nodes")?;
         let mut data = Bytes(
             self.data
-                .get(offset as usize..)
+                .get(offset.try_into().unwrap_or(usize::MAX)..)
                 .read_error("Invalid exports trie offset")?,
         );
         let terminal_size = data
@@ -153,7 +153,7 @@ impl<'data> NodeIterator<'data> {
             None
         } else {
             let (flags, export_data) = ExportData::parse(
-                data.read_bytes(terminal_size as usize)
+                data.read_bytes(terminal_size.try_into().unwrap_or(usize::MAX))
                     .read_error("Exports trie terminal size exceeds bounds")?,
             )?;
             Some(ExportSymbol {
diff --git a/src/read/macho/section.rs b/src/read/macho/section.rs
index c59a9f3..09b8dba 100644
--- a/src/read/macho/section.rs
+++ b/src/read/macho/section.rs
@@ -459,7 +459,9 @@ pub trait Section: Debug + Pod + read::private::Sealed {
             _ => return Ok(&[]),
         };
         let start = self.reserved1(endian) as usize;
-        let count = self.size(endian).into() as usize / entry_size;
+        let count = (self.size(endian).into() / entry_size as u64)
+            .try_into()
+            .unwrap_or(usize::MAX);
         indirect_symbols
             .get(start..)
             .and_then(|symbols| symbols.get(..count))
-- 
2.43.0


From e48223931c7cf6a6ed0391d0428cad2aa97c6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 90/93] fix: the containing csect of an XCOFF64 label was
 truncated on 32-bit hosts

---
 src/read/xcoff/symbol.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 00d0813..f052968 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -531,7 +531,9 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> ObjectSymbol<'data>
                 x_smtyp = aux_csect.x_smtyp();
                 x_smclas = aux_csect.x_smclas();
                 if aux_csect.sym_type() == xcoff::XTY_LD {
-                    containing_csect = Some(SymbolIndex(aux_csect.x_scnlen() as usize))
+                    containing_csect = u32::try_from(aux_csect.x_scnlen())
+                        .ok()
+                        .map(|index| SymbolIndex(index as usize));
                 }
             }
         }
-- 
2.43.0


From 723d38c44ba9c56b34cb06d4c20879e8e2a4b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 91/93] fix: the count of CREL relocations was truncated on
 32-bit hosts

---
 src/read/elf/relocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index e8a5bc0..3c3000d 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -927,7 +927,7 @@ impl<'data> CrelIterator<'data> {
         Ok(CrelIterator {
             data,
             header: CrelIteratorHeader {
-                count: count as usize,
+                count: count.try_into().unwrap_or(usize::MAX),
                 flag_bits,
                 shift,
                 is_rela,
-- 
2.43.0


From 68f5b25e4f5d42b31cc849d1117bb9298c6dc0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 92/93] fix: the sum of Mach-O section counts overflowed in the
 builder on 32-bit hosts

---
 src/build/macho.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 8313852..27140d5 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -144,12 +144,16 @@ impl<'data> Builder<'data> {
             use read::macho::LoadCommandVariant;
             match command.variant()? {
                 LoadCommandVariant::Segment32(segment, _) => {
-                    state.sections_len += segment.nsects.get(endian) as usize;
+                    state.sections_len = state
+                        .sections_len
+                        .saturating_add(segment.nsects.get(endian) as usize);
                     let fileoff = segment.fileoff.get(endian);
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
                 LoadCommandVariant::Segment64(segment, _) => {
-                    state.sections_len += segment.nsects.get(endian) as usize;
+                    state.sections_len = state
+                        .sections_len
+                        .saturating_add(segment.nsects.get(endian) as usize);
                     let fileoff = segment.fileoff.get(endian);
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
-- 
2.43.0


From 6b877e20391fb76af49303875ece827b78484625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:05 +0000
Subject: [PATCH 93/93] fix: section alignments of 2^32 or more made
 append_data panic on 32-bit hosts

---
 src/write/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/write/mod.rs b/src/write/mod.rs
index 28e0a8b..d588254 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -976,16 +976,15 @@ impl<'a> Section<'a> {
         if self.align < align {
             self.align = align;
         }
-        let align = align as usize;
         let data = self.data.to_mut();
-        let mut offset = data.len();
+        let mut offset = data.len() as u64;
         if offset & (align - 1) != 0 {
             offset += align - (offset & (align - 1));
-            data.resize(offset, 0);
+            data.resize(offset.try_into().unwrap(), 0);
         }
         data.extend_from_slice(append_data);
         self.size = data.len() as u64;
-        offset as u64
+        offset
     }
 
     /// Append uninitialized data to a section.
-- 
2.43.0

