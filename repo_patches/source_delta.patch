From 4a062789d980800badfd8f2ef21e4af0659e2a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:44 +0000
Subject: [PATCH 01/31] fix: the group name 'wind' could not be parsed

---
 src/ringhopper-primitives/src/primitive/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..3651901 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,7 +215,9 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        // The last entry is `<unset>`. It is not a real group, and it is not in alphabetical order, so it can't be searched.
+        let (_unset, groups) = ALL_GROUPS.split_last().unwrap();
+        groups.binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From 04f2adb59a57b7c16069ea5ce0ee6156658b1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 02/31] fix: the stored size of planes is 12 and 16 bytes

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From 830044a55a4081bc09eae62d28fb84d3c15d5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 03/31] fix: the address of a data record was written after its
 padding

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..5e6cbb3 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -1003,8 +1003,8 @@ impl SimpleTagData for DataC {
         self.size.write::<B>(data, at, struct_end)?;
         self.flags.write::<B>(data, at + 0x4, struct_end)?;
         self.file_offset.write::<B>(data, at + 0x8, struct_end)?;
-        self.padding.write::<B>(data, at + 0xC, struct_end)?;
-        self.address.write::<B>(data, at + 0x10, struct_end)?;
+        self.address.write::<B>(data, at + 0xC, struct_end)?;
+        self.padding.write::<B>(data, at + 0x10, struct_end)?;
         Ok(())
     }
 }
-- 
2.43.0


From f33eaf821ad59fe24aaf15257970e46f91276a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:34 +0000
Subject: [PATCH 04/31] fix: the item counts of tags and maps were used to
 allocate memory before checking that the items are there

---
 src/ringhopper-primitives/src/primitive/data.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 5e6cbb3..7231127 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
@@ -596,13 +596,15 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+        let mut item_offset = *extra_data_cursor;
+
+        // The count can't be trusted (nor can it be used for allocating anything) until we know the items are actually there.
+        *extra_data_cursor = fits(total_length, item_offset, data.len())?;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
 
-        let mut item_offset = *extra_data_cursor;
-        *extra_data_cursor = (item_offset).add_overflow_checked(total_length)?;
-
         for _ in 0..count {
             let struct_end = item_offset + item_size;
             result.items.push(T::read_from_tag_file(data, item_offset, struct_end, extra_data_cursor)?);
@@ -641,8 +643,9 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         // Make sure we can add all of these
         count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
 
+        // The count isn't trustworthy, so it can't be used for preallocating.
         let mut result = Reflexive {
-            items: Vec::with_capacity(count)
+            items: Vec::new()
         };
 
         for _ in 0..count {
-- 
2.43.0


From 4471778551100a141faa96b160463151e9a75449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 05/31] fix: ID::from_u32_checked refused valid IDs and
 accepted invalid ones

---
 src/ringhopper-primitives/src/primitive/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 7231127..6c72bca 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -134,7 +134,7 @@ impl ID {
     /// Convert from a [`u32`] with validity checks.
     pub const fn from_u32_checked(id: u32) -> RinghopperResult<Self> {
         let id = Self::from_u32(id);
-        if id.is_valid() {
+        if !id.is_valid() {
             Err(Error::InvalidID)
         }
         else {
-- 
2.43.0


From 5a1b0c28a82d78d57ec2d18bf365e84d0d2e59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 06/31] fix: accessing an array item that does not exist
 panicked instead of returning None

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 6c72bca..a617f21 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -871,11 +871,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 2327edde2337933cd554b8757e753702c71b3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 07/31] fix: reflexives could not be accessed as reflexives

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index a617f21..53c7c36 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -860,6 +860,10 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
         DynamicTagDataType::Reflexive
     }
 
+    fn as_reflexive_mut(&mut self) -> Option<&mut dyn DynamicReflexive> {
+        Some(self as &mut dyn DynamicReflexive)
+    }
+
     fn as_array(&self) -> Option<&dyn DynamicTagDataArray> {
         Some(self as &dyn DynamicTagDataArray)
     }
-- 
2.43.0


From 4eafd4f2ba9a4d288e1c450115a7569e10a78954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 08/31] fix: addresses below the BSP data were not looked up in
 tag data

---
 src/ringhopper-primitives/src/map.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..b7d4ec9 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,9 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
-
-        let data = domain_start.get(offset..end);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +187,9 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From bbe5ecc1f317384faeaaccaed378c7a83f7ecdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 09/31] fix: normalizing a vector into a unit other than 1
 panicked, and ignored the unit for zero vectors

---
 src/ringhopper-primitives/src/primitive/vector.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..9a028cc 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -41,12 +41,10 @@ pub trait Vector: Sized + Copy + Clone {
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
         if magnitude_sq == 0.0 {
-            return Self::one();
+            return Self::one().scale(unit);
         }
 
-        let result = self.scale(unit / magnitude_sq.sqrt());
-        debug_assert!(result.is_unit_vector());
-        result
+        self.scale(unit / magnitude_sq.sqrt())
     }
 
     /// Return `true` if the vector is a unit vector.
-- 
2.43.0


From dd141699f6d9bea871a4710250364ea5a49371f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 10/31] fix: negative values close to zero were compressed to
 -1

---
 src/ringhopper-primitives/src/primitive/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index 9a028cc..9c8e76c 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -857,6 +857,10 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
+        // Rounds up to zero, which does not have a negative counterpart.
+        if integer == max {
+            return 0
+        }
         integer = integer | 1 << (BITS - 1);
     }
 
-- 
2.43.0


From 3c55b4d15f3e300188f1b2a58ac3883ff54182f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 11/31] hook: access to map internals under
 cfg(ringhopper_verif)

---
 src/ringhopper/src/map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..b1e1c02 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -209,3 +209,13 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         }
     }
 }
+
+/// Access to internals for verification harnesses.
+#[cfg(any(kani, ringhopper_verif))]
+pub mod verif {
+    pub use super::extract::*;
+
+    pub fn decompress_map_data(data: Vec<u8>, header: &super::ParsedCacheFileHeader, engine: &super::Engine) -> super::RinghopperResult<Vec<u8>> {
+        super::decompress_map_data(data, header, engine)
+    }
+}
-- 
2.43.0


From 9f6005ec8bd870cab28eaee1096d31eeef4ee604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 12/31] fix: resource map: check the array against the file
 before allocating it

---
 src/ringhopper/src/map/resource.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..b2c2155 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,9 +26,17 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
         let resource_len = ResourceMapResource::simple_size();
 
+        let array_end = array_len
+            .mul_overflow_checked(resource_len)
+            .and_then(|array_size| current_offset.add_overflow_checked(array_size))?;
+        if array_end > data_slice.len() {
+            return Err(Error::MapParseFailure(format!("Resource map parse failure: array of {array_len} resources is out-of-bounds")))
+        }
+
+        let mut resources = Vec::with_capacity(array_len);
+
         for i in 0..array_len {
             let data = ResourceMapResource::read::<LittleEndian>(data_slice, current_offset, data_slice.len())
                 .map_err(|e| Error::MapParseFailure(format!("Resource map parse failure: array index {i}: {e}")))?;
-- 
2.43.0


From 01abddbd55976c32dc97e37196c9385828fae535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 13/31] fix: maps with external BSP vertices: a bad BSP header
 is an error, not a panic

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..f6b25c8 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -161,8 +161,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From 1370926d67cc2e2f503622f83b5a6a9ac9081328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 14/31] fix: compressed maps: a decompressed size below the
 size of the header is an error

---
 src/ringhopper/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index b1e1c02..b4a80b3 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -193,6 +193,10 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
+    if header.decompressed_size < compressed_start {
+        return Err(Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the header".to_owned()))
+    }
+
     let mut result = Vec::with_capacity(header.decompressed_size);
     result.extend_from_slice(&data[..compressed_start]);
     result.resize(header.decompressed_size, 0);
-- 
2.43.0


From dac5b0e02aef4a30d2ae77caccd2e78a2bdfffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 15/31] fix: maps: a scenario tag ID that is not in the tag
 array is an error, not a panic

---
 src/ringhopper/src/map/gearbox.rs | 2 +-
 src/ringhopper/src/map/util.rs    | 6 ++++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index f6b25c8..5c59ce8 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..9e1f440 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,10 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>], scenario_tag: ID) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map
+        .get_tag_by_id(scenario_tag)
+        .ok_or_else(|| Error::MapParseFailure("scenario tag is not in the tag array; likely protected/corrupted map".to_owned()))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..380d9a2 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From 407e163df199908df5bda23a5f88b643ecd795be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 16/31] fix: round numbers with long or all-nine significant
 digits correctly when nudging

---
 src/ringhopper/src/tag/nudge.rs | 77 +++++++++++++++------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..2a72bd9 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -152,60 +152,55 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
     let mut buf = buf.into_inner();
     let str_index = buf.iter().position(|b| *b == 0).expect("can't get float output");
 
-    let written = &mut buf[..str_index];
+    let mut written = buf[..str_index].to_vec();
 
-    // First, find the most significant digits
     if written.len() <= MAX_SIG_FIGS {
         return float;
     }
 
-    macro_rules! ignore_dot_iter {
-        ($a:expr) => {{
-            let len = $a.len();
-            let mut first_sig_fig_found = false;
-            ($a)
-                .iter_mut()
-                .zip(0..len)
-                .filter(move |(b,_)| {
-                    if **b == b'.' || (!first_sig_fig_found && **b == b'0') {
-                        return false;
-                    }
-                    first_sig_fig_found = true;
-                    true
-                })
-        }};
-    }
+    round_to_significant_figures(&mut written);
 
-    let mut sig_figs_end = str_index;
-    let mut sig_figs_index = 0usize;
-    let mut round_up = false;
+    let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+    let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
+    f * signum
+}
 
-    for (byte, index) in ignore_dot_iter!(written) {
-        if sig_figs_index == MAX_SIG_FIGS {
-            sig_figs_end = index;
-            round_up = *byte >= b'5';
-        }
-        if sig_figs_index >= MAX_SIG_FIGS {
-            *byte = b'0';
-        }
-        sig_figs_index += 1;
+/// Round the decimal number to [`MAX_SIG_FIGS`] significant figures (half up).
+fn round_to_significant_figures(written: &mut Vec<u8>) {
+    // First, find the most significant digits
+    let is_digit = |i: &usize| written[*i] != b'.';
+    let digits: Vec<usize> = (0..written.len())
+        .filter(is_digit)
+        .skip_while(|i| written[*i] == b'0')
+        .collect();
+
+    if digits.len() <= MAX_SIG_FIGS {
+        return;
+    }
+
+    let (significant, insignificant) = digits.split_at(MAX_SIG_FIGS);
+    let round_up = written[insignificant[0]] >= b'5';
+    for i in insignificant {
+        written[*i] = b'0';
     }
 
     // Do rounding here
-    if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
-            if *byte == b'9' {
-                *byte = b'0';
-            } else {
-                *byte += 1;
-                break;
-            }
+    if !round_up {
+        return;
+    }
+    for i in significant.iter().rev() {
+        if written[*i] != b'9' {
+            written[*i] += 1;
+            return;
         }
+        written[*i] = b'0';
     }
 
-    let fstr = std::str::from_utf8(&written).expect("should be utf-8");
-    let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
-    f * signum
+    // All significant digits were 9, so it carries into the digit before them
+    match (0..significant[0]).rev().find(|i| written[*i] != b'.') {
+        Some(i) => written[i] = b'1',
+        None => written.insert(0, b'1')
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From f536961187989126613c5274992c0797ea99661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 17/31] fix: recognize sample rates by their numerical values

---
 src/ringhopper/src/tag/sound.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/sound.rs b/src/ringhopper/src/tag/sound.rs
index 9b340bd..d2e0140 100644
--- a/src/ringhopper/src/tag/sound.rs
+++ b/src/ringhopper/src/tag/sound.rs
@@ -166,8 +166,8 @@ pub fn sample_rate_to_u32(sample_rate: SoundSampleRate) -> u32 {
 /// Get a [`SoundChannelCount`] from its equivalent numerical value.
 pub fn sample_rate_from_u32(sample_rate: u32) -> Option<SoundSampleRate> {
     match sample_rate {
-        1 => Some(SoundSampleRate::_22050Hz),
-        2 => Some(SoundSampleRate::_44100Hz),
+        22050 => Some(SoundSampleRate::_22050Hz),
+        44100 => Some(SoundSampleRate::_44100Hz),
         _ => None
     }
 }
-- 
2.43.0


From 27bdf3a225a939af63047206719140b38915155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 18/31] fix: report missing detail object collection palettes
 (once) instead of never

---
 src/ringhopper/src/tag/verify/scenario_structure_bsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index 6ffd795..c025a29 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -69,7 +69,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .and_then(|r| r.path())
                     .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
                     let bit = 1 << bit_offset;
-                    if (complained_bitfield & bit) != 0 {
+                    if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
                         result.errors.push(format!("Missing detail object collection palette #{bit_offset} in scenario tag"));
                     }
-- 
2.43.0


From 8737945009b6e87ce3cd09c34a505afcfbf125b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 19/31] fix: check shader and centroid node indices of
 (non-GBX) model parts

---
 src/ringhopper/src/tag/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..2704463 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -471,6 +471,8 @@ fn check_base_part<M: ModelFunctions>(model: &M, part: &ModelGeometryPart) -> Ri
 }
 
 fn check_indices_for_part<M: ModelFunctions>(model: &M, part: &ModelGeometryPart) -> RinghopperResult<()> {
+    check_base_part(model, part)?;
+
     let nodes = model.nodes();
     check_vertex_buffer(part.uncompressed_vertices.items.iter().map(ToOwned::to_owned), nodes, None)?;
     check_vertex_buffer(part.compressed_vertices.items.iter().map(decompress_model_vertex), nodes, None)?;
-- 
2.43.0


From ae4621965b2837472613f2864231738ccb4175db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 20/31] fix: reject compressed model animations that end before
 the compressed data

---
 src/ringhopper/src/tag/model_animations.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/model_animations.rs b/src/ringhopper/src/tag/model_animations.rs
index 6d5e924..fa6514f 100644
--- a/src/ringhopper/src/tag/model_animations.rs
+++ b/src/ringhopper/src/tag/model_animations.rs
@@ -165,6 +165,9 @@ fn flip_endianness_for_frame_data<From: ByteOrder, To: ByteOrder>(animation: &mu
         if animation.offset_to_compressed_data as usize != total_size {
             return Err(Error::InvalidTagData(format!("model animation offset {offset} is not exactly after frame data {total_size}", offset=animation.offset_to_compressed_data as usize)))
         }
+        if animation.frame_data.bytes.len() < total_size {
+            return Err(Error::InvalidTagData(format!("model animation frame data is too small ({actual} < {total_size})", actual=animation.frame_data.bytes.len())))
+        }
     }
     else {
         if total_size != animation.frame_data.bytes.len() {
-- 
2.43.0


From a9162db97b4dea023638f1e7a1fc6bcc88b825ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 21/31] fix: keep empty lines at the end of strings when
 converting string lists to text

---
 src/ringhopper/src/tag/unicode_string_list.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..6fd6603 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,9 +191,12 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
-                let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
-                data.extend(line_encoder);
+            if !string.is_empty() {
+                // Not lines(), since that loses the empty line after a string that ends with a line ending.
+                for line in string.split("\r\n") {
+                    let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
+                    data.extend(line_encoder);
+                }
             }
             data.extend("###END-STRING###\r\n".encode_utf16().map(|b| b.to_le_bytes()).flatten());
         }
-- 
2.43.0


From 705172e98b5e93097a1c85e19caaaa7b570875ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 22/31] hook: access to rounding and tag verification under
 cfg(ringhopper_verif)

---
 src/ringhopper/src/tag/nudge.rs  | 11 +++++++++++
 src/ringhopper/src/tag/verify.rs | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 2a72bd9..acbb24d 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -203,5 +203,16 @@ fn round_to_significant_figures(written: &mut Vec<u8>) {
     }
 }
 
+/// Access to internals for verification harnesses.
+#[cfg(any(kani, ringhopper_verif))]
+pub mod verif {
+    pub fn round_to_significant_figures(written: &mut Vec<u8>) {
+        super::round_to_significant_figures(written)
+    }
+    pub fn fix_decimal_rounding(float: f64) -> f64 {
+        super::fix_decimal_rounding(float)
+    }
+}
+
 #[cfg(test)]
 mod test;
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..b4b0bbd 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -237,3 +237,23 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
         }
     }
 }
+
+/// Access to internals for verification harnesses.
+#[cfg(any(kani, ringhopper_verif))]
+pub mod verif {
+    use super::*;
+
+    /// Verify one tag (and what it needs) of a scenario without starting threads.
+    pub fn verify_tag<T: TagTree + Send + Sync + 'static>(path: &TagPath, scenario: &TagPath, hud_globals: &TagPath, scenario_type: ScenarioType, tag_tree: Arc<T>, engine: &'static Engine) -> RinghopperResult<HashMap<TagPath, TagResult>> {
+        let context = ScenarioContext {
+            scenario: tag_tree.open_tag_shared(scenario)?,
+            hud_globals: tag_tree.open_tag_shared(hud_globals)?,
+            scenario_type,
+            engine,
+            tag_tree,
+            results: Mutex::new(HashMap::new())
+        };
+        context.verify_tag(path, false);
+        Ok(context.results.into_inner().unwrap())
+    }
+}
-- 
2.43.0


From 7e26e1944a6f6ce84773db20e60978de0a03aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 23/31] fix: give BSP vertices with normals that are not finite
 a direction when repairing

---
 src/ringhopper/src/tag/bludgeon/scenario_structure_bsp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/bludgeon/scenario_structure_bsp.rs b/src/ringhopper/src/tag/bludgeon/scenario_structure_bsp.rs
index 1b4e4ae..8d956e5 100644
--- a/src/ringhopper/src/tag/bludgeon/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/bludgeon/scenario_structure_bsp.rs
@@ -1,4 +1,4 @@
-use primitives::{byteorder::LittleEndian, parse::SimpleTagData, primitive::Vector, tag::PrimaryTagStructDyn};
+use primitives::{byteorder::LittleEndian, parse::SimpleTagData, primitive::{Vector, Vector3D}, tag::PrimaryTagStructDyn};
 use ringhopper_structs::{ScenarioStructureBSP, ScenarioStructureBSPMaterialUncompressedRenderedVertex};
 use crate::tag::verify::scenario_structure_bsp::check_scenario_structure_bsp_vertex_data_size_correct;
 
@@ -25,6 +25,10 @@ pub fn repair_scenario_structure_bsp(tag: &mut dyn PrimaryTagStructDyn) -> Bludg
                 .unwrap()
                 .into_infallible()
                 .map(|mut v| {
+                    // Not a number or infinite, thus it has no direction.
+                    if !v.normal.magnitude_squared().is_finite() {
+                        v.normal = Vector3D::zero();
+                    }
                     v.normal = v.normal.normalize();
                     v.as_bytes::<LittleEndian>().unwrap()
                 });
-- 
2.43.0


From 736d5dfe56af44b0b24cd82c086fb6eb0151de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 24/31] fix: quote strings with semicolons or any whitespace
 when decompiling scripts

---
 src/ringhopper/src/tag/scenario.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..25e1c40 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -374,7 +374,7 @@ fn sanitize(mut string: Cow<str>) -> Cow<str> {
     if string.contains("\"") {
         string = Cow::Owned(string.replace("\"", "\\\""));
     }
-    if string.contains("(") || string.contains(")") || string.contains(" ") {
+    if string.contains(|c: char| c.is_whitespace() || matches!(c, '(' | ')' | ';')) {
         string = Cow::Owned(format!("\"{string}\""));
     }
     string
-- 
2.43.0


From f0a06cf92ebdc79fd4912a6fe8d3990ada12fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 25/31] fix: refuse to recover scripts whose names lead out of
 the scripts directory

---
 src/ringhopper/src/tag/recover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 281e890..f07a613 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -53,6 +53,11 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
     for i in &scenario.source_files.items {
+        // The name is used as a file name, thus it must not lead anywhere else
+        if i.name.as_str().contains(['/', '\\', ':']) {
+            return Err(InvalidTagData(format!("Script source file name `{}` is not a file name", i.name)))
+        }
+
         let path = match i.name.as_str() {
             "global_scripts" => "global_scripts.hsc".into(),
             name => base_scripts_dir.clone().join(format!("{name}.hsc"))
-- 
2.43.0


From a0f98ceb116ff27e35708e6e314b4f55f2c791c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 26/31] fix: refuse to recover scripts of the same name instead
 of keeping only the last one

---
 src/ringhopper/src/tag/recover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index f07a613..1778774 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -48,7 +48,7 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
         return Ok(None)
     }
 
-    // TODO: Verify that there are no duplicate script source files, and that all source files have lowercase names.
+    // TODO: Verify that all source files have lowercase names.
 
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
@@ -69,7 +69,9 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
 
         // Finally add the script
         let data = data[..end].to_owned();
-        fs.insert(path, data);
+        if fs.insert(path, data).is_some() {
+            return Err(InvalidTagData(format!("Multiple script source files are named `{}`", i.name)))
+        }
     }
 
     Ok(Some(fs))
-- 
2.43.0


From 2ce1ddc7bd83e03ef24b8940714c13d86fad3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:45 +0000
Subject: [PATCH 27/31] fix: don't allocate what the sizes of bitmaps in a
 damaged map ask for

---
 src/ringhopper/src/map/extract.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..41a0757 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -373,19 +373,12 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+
+    // The sizes in the tag are not validated yet, thus we can't rely on them to preallocate anything.
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
-- 
2.43.0


From e1fb07c22444fecc22e378bae6fe65845f997fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 28/31] fix: look at the numbers in bounds and arrays when
 checking and repairing floats

---
 src/ringhopper-primitives/src/tag.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ringhopper-primitives/src/tag.rs b/src/ringhopper-primitives/src/tag.rs
index bdf6e70..88e483f 100644
--- a/src/ringhopper-primitives/src/tag.rs
+++ b/src/ringhopper-primitives/src/tag.rs
@@ -316,8 +316,13 @@ pub fn for_each_field<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(d
             predicate(data.get_metadata_for_field(field_name), field);
 
             if let Some(arr) = field.as_array() {
+                // Items of arrays and bounds are values rather than blocks
+                let is_reflexive = field.data_type() == DynamicTagDataType::Reflexive;
                 for i in 0..arr.len() {
                     let item = arr.get_at_index(i).unwrap();
+                    if !is_reflexive {
+                        predicate(data.get_metadata_for_field(field_name), item);
+                    }
                     recursion(item, predicate);
                 }
             }
@@ -341,9 +346,14 @@ pub fn for_each_field_mut<P: FnMut(Option<TagFieldMetadata>, &mut dyn DynamicTag
             let field = data.get_field_mut(field_name).unwrap();
             predicate(metadata, field);
 
+            let is_reflexive = field.data_type() == DynamicTagDataType::Reflexive;
             if let Some(arr) = field.as_array_mut() {
+                // Items of arrays and bounds are values rather than blocks
                 for i in 0..arr.len() {
                     let item = arr.get_at_index_mut(i).unwrap();
+                    if !is_reflexive {
+                        predicate(metadata, item);
+                    }
                     recursion(item, predicate, access_read_only_fields);
                 }
             }
-- 
2.43.0


From cbbe1a2e143b18c1f13ea57d0e2b3bcaeb8bdb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 29/31] fix: report tags that can't be opened when looking for
 reverse dependencies instead of panicking

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..a2a6c60 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 26685881a4903b9b69dd7239f8e9bb70cb683fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 30/31] fix: tag filters with characters outside of ASCII no
 longer panic

---
 src/ringhopper/src/tag/tree.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..d5cf26c 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -84,7 +84,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes().get(possible_dot) == Some(&b'.') && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -136,7 +136,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes().get(possible_dot) == Some(&b'.') && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -256,9 +256,9 @@ impl TagFilter {
 
             let what_first = what_first.unwrap();
 
-            filter = &filter[1..];
+            filter = &filter[filter_first.len_utf8()..];
             if filter_first != '*' {
-                what = &what[1..];
+                what = &what[what_first.len_utf8()..];
             }
 
             if filter_first == '?' || filter_first == what_first {
@@ -268,11 +268,10 @@ impl TagFilter {
                 if filter.is_empty() {
                     return true
                 }
-                while !what.is_empty() {
-                    if Self::filter_passes_raw(filter, what) {
+                for (offset, _) in what.char_indices() {
+                    if Self::filter_passes_raw(filter, &what[offset..]) {
                         return true
                     }
-                    what = &what[1..];
                 }
                 return false
             }
-- 
2.43.0


From 396bb344478722c48a1b43866b8add586577caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 31/31] fix: set and remove the defaults of particle radii the
 right way around

---
 src/ringhopper/src/tag/default/particle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/default/particle.rs b/src/ringhopper/src/tag/default/particle.rs
index 2a0f139..196cdbd 100644
--- a/src/ringhopper/src/tag/default/particle.rs
+++ b/src/ringhopper/src/tag/default/particle.rs
@@ -4,11 +4,11 @@ use ringhopper_structs::Particle;
 pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 0.0 {
-        particle.radius_animation.lower = 1.0;
+    if particle.radius_animation.lower == 1.0 {
+        particle.radius_animation.lower = 0.0;
     }
-    if particle.radius_animation.upper == 0.0 {
-        particle.radius_animation.upper = 1.0;
+    if particle.radius_animation.upper == 1.0 {
+        particle.radius_animation.upper = 0.0;
     }
 
     if (particle.fade_start_size == 5.0 || particle.fade_start_size == 0.0) && (particle.fade_end_size == 4.0 || particle.fade_end_size == 0.0) {
@@ -20,11 +20,11 @@ pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
 pub fn set_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 1.0 {
-        particle.radius_animation.lower = 0.0;
+    if particle.radius_animation.lower == 0.0 {
+        particle.radius_animation.lower = 1.0;
     }
-    if particle.radius_animation.upper == 1.0 {
-        particle.radius_animation.upper = 0.0;
+    if particle.radius_animation.upper == 0.0 {
+        particle.radius_animation.upper = 1.0;
     }
 
     // This is a weird behavior with tool.exe, since it can unset values you might've wanted, so the verification step
-- 
2.43.0

