From 4966b6d6f57b4c9b8afc931396bfd129a2f1f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 01/50] fix: keep an included rule list that contains the
 parent's single rule

When the parent gives a key as a string and an included file gives the same
key as a list containing that string, the other entries of the list were
dropped.
---
 src/patch/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..dd11faf 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -245,13 +245,13 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                         }
                         s if matches!(s, Yaml::String(_)) => match val {
                             Yaml::Array(a) => {
+                                let mut a = a.clone();
                                 if !a.contains(s) {
-                                    let mut a = a.clone();
                                     a.insert(0, s.clone());
-                                    e.insert(Yaml::Array(a));
                                 } else {
                                     println!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
+                                e.insert(Yaml::Array(a));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
                                 println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
-- 
2.43.0


From a632fb9142b22fbd52b5cd9afe75b1c8d3b0320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 02/50] fix: keep the value names of a dimArrayIndex given in a
 patch

The names were never passed to the builder, so that every dimArrayIndex with
values was rejected.
---
 src/patch/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index dd11faf..c8b4d9a 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -458,6 +458,7 @@ fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
             let description = description.str()?;
             values.push(
                 EnumeratedValue::builder()
+                    .name(vname.into())
                     .value(Some(value as u64))
                     .description(Some(description.into()))
                     .build(VAL_LVL)?,
-- 
2.43.0


From 07ca58930514ca95f11169e70c5d999a2fa8aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 03/50] fix: check the offsets of every register group
 collected into a cluster

Only the offsets of the first group were compared with dimIncrement, so that
registers of the other groups could silently move to other addresses.
---
 src/patch/peripheral.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd690b3..6cad319 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1742,7 +1742,6 @@ fn collect_in_cluster(
     let mut dim = 0;
     let mut dim_index = Vec::new();
     let mut dim_increment = cmod.get_u32("dimIncrement")?.unwrap_or(0);
-    let mut offsets = Vec::new();
     let mut place = usize::MAX;
     let mut rspecs = Vec::new();
     let single = !cname.contains("%s");
@@ -1818,6 +1817,10 @@ fn collect_in_cluster(
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
+            let offsets = registers
+                .iter()
+                .map(|r| r.address_offset)
+                .collect::<Vec<_>>();
             if let Some(rspec1) = first.as_ref() {
                 let len = registers.len();
                 if dim != len {
@@ -1833,10 +1836,6 @@ fn collect_in_cluster(
             } else {
                 dim = registers.len();
                 dim_index = new_dim_index;
-                offsets = registers
-                    .iter()
-                    .map(|r| r.address_offset)
-                    .collect::<Vec<_>>();
                 if dim > 1 {
                     dim_increment = offsets[1] - offsets[0];
                 }
-- 
2.43.0


From 709de824d5e532ffd8a38b50b7a6fe2493ef41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 04/50] fix: substitute %s when expanding a cluster array named
 without brackets

The name was searched for `[%s]` twice, so that the indices were appended
after a left-over `%s`.
---
 src/patch/peripheral.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 6cad319..faccc8a 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -783,7 +783,7 @@ pub(crate) trait RegisterBlockExt: Name {
         let post_index_delim = post_index_delim.unwrap_or("_").to_string();
 
         let has_bracket_delim = ctag.name.find(r#"[%s]"#);
-        let has_nobracket_delim = ctag.name.find(r#"[%s]"#);
+        let has_nobracket_delim = ctag.name.find(r#"%s"#);
         let prefix = if dim.dim > 1 || matches!(zeroindex, Some(true)) {
             if let Some(true) = noprefix {
                 return Err(anyhow!(
@@ -846,7 +846,16 @@ pub(crate) trait RegisterBlockExt: Name {
                         post_index_delim
                     )
                 }
-                (None, None, _) => {
+                (None, None, Some(_)) => {
+                    format!(
+                        "{}{}",
+                        &ctag
+                            .name
+                            .replace(r#"%s"#, &format!("{}{}", pre_index_delim, &n_dim.to_string())),
+                        post_index_delim
+                    )
+                }
+                (None, None, None) => {
                     format!(
                         "{}{}{}{}",
                         ctag.name, pre_index_delim, n_dim, post_index_delim
-- 
2.43.0


From 26855b401d791a34a8a593cad99a8ee6f9e5bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 05/50] fix: delete only the expanded arrays in _expand_cluster

Every cluster matching the specification was deleted at the end, including
single clusters, whose registers were lost, and clusters that had just come
out of the expanded array.
---
 src/patch/peripheral.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index faccc8a..0b368d4 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -684,9 +684,8 @@ pub(crate) trait RegisterBlockExt: Name {
         noprefix: Option<bool>,
     ) -> PatchResult {
         let mut clusters_to_expand_with_info = Vec::new();
-        let mut clusters_to_delete = Vec::new();
 
-        let (_, ignore) = cspec.spec();
+        let (name_spec, ignore) = cspec.spec();
 
         // some fancy footwork to satisfy the borrow checker gods
         let cluster_data = self.get_cluster_registers(cspec);
@@ -706,6 +705,10 @@ pub(crate) trait RegisterBlockExt: Name {
         }
 
         if let Some(regs) = self.children_mut() {
+            // the expanded arrays are replaced with their contents
+            regs.retain(|rc| {
+                !matches!(rc, RegisterCluster::Cluster(Cluster::Array(c, _)) if matchname(&c.name, name_spec))
+            });
             for (ctag, dim, cluster_registers) in clusters_to_expand_with_info.clone() {
                 let mut found = false;
                 let cluster_offset = ctag.address_offset;
@@ -753,17 +756,12 @@ pub(crate) trait RegisterBlockExt: Name {
                 }
                 if !found {
                     return Err(anyhow!("No registers found in cluster {:?}", cspec));
-                } else {
-                    clusters_to_delete.push(ctag.name);
                 }
             }
         } else {
             return Err(anyhow!("No registers or clusters"));
         };
 
-        self.delete_cluster(cspec)
-            .with_context(|| format!("Deleting clusters matched to `{cspec}`"))?;
-
         Ok(())
     }
 
-- 
2.43.0


From 035e58a49a5fe018ab759ae7464787230787e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 06/50] fix: apply optional (?~) child rules to clusters

`?~` rules in a register block were dropped when only clusters matched them.
---
 src/patch/peripheral.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 0b368d4..cd9aa7b 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -403,15 +403,17 @@ pub(crate) trait RegisterBlockExt: Name {
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
         let (rcspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rcspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rcspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if !ctags.is_empty() {
+                modify_cluster(ctags, rcmod, bpath)
+            } else if ignore {
+                Ok(())
+            } else {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rcspec}. Present registers: {present}.`"
                 ))
-            } else {
-                modify_cluster(ctags, rcmod, bpath)
             }
         } else {
             modify_register(rtags, rcmod, bpath)
@@ -453,9 +455,9 @@ pub(crate) trait RegisterBlockExt: Name {
     ) -> PatchResult {
         let (rspec, ignore) = rcspec.spec();
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
-        if rtags.is_empty() && !ignore {
+        if rtags.is_empty() {
             let ctags = self.iter_clusters(rspec).collect::<Vec<_>>();
-            if ctags.is_empty() {
+            if ctags.is_empty() && !ignore {
                 let present = self.present_registers();
                 Err(anyhow!(
                     "Could not find `{bpath}:{rspec}. Present registers: {present}.`"
-- 
2.43.0


From 25fe257ef1dcea77b40820e1eacf67f71fa1073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 07/50] fix: compare all bits of field arrays when collecting
 registers

The bit mask of a register counted only the first element of each field array,
so that registers with different fields could be collected into one array.
---
 src/patch/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 170aa86..116c0b7 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -31,7 +31,7 @@ impl RegisterInfoExt for RegisterInfo {
         let mut mask = 0x0;
         if let Some(fields) = self.fields.as_ref() {
             for ftag in fields {
-                mask |= (!0 >> (64 - ftag.bit_range.width)) << ftag.bit_range.offset;
+                mask |= ftag.bitmask();
             }
         }
         mask
-- 
2.43.0


From f061ac52a3c73e05072380d1f233a73fd4ef234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:29 +0000
Subject: [PATCH 08/50] fix: reject collecting fields of different widths into
 an array

All elements silently got the width of the first field.
---
 src/patch/register.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 116c0b7..3af34a5 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -561,6 +561,14 @@ impl RegisterExt for Register {
                 ));
             }
             fields.sort_by_key(|f| f.bit_range.offset);
+            if fields
+                .iter()
+                .any(|f| f.bit_range.width != fields[0].bit_range.width)
+            {
+                return Err(anyhow!(
+                    "{rpath}: fields cannot be collected into {fspec} array. Different bitWidth"
+                ));
+            }
             let Some((li, ri)) = spec_ind(fspec) else {
                 return Err(anyhow!(
                     "`{fspec}` contains no tokens or contains more than one token"
-- 
2.43.0


From 17147aa290d142b761f3e22114917e90e76d3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 09/50] fix: report a field array rule in a register without
 fields

The unmatched rule was silently ignored.
---
 src/patch/register.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 3af34a5..d798762 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -535,11 +535,11 @@ impl RegisterExt for Register {
         fmod: &Hash,
         rpath: &RegisterPath,
     ) -> PatchResult {
+        let (fspec, ignore) = fspec.spec();
         if let Some(fs) = self.fields.as_mut() {
             let mut fields = Vec::new();
             let mut place = usize::MAX;
             let mut i = 0;
-            let (fspec, ignore) = fspec.spec();
             while i < fs.len() {
                 match &fs[i] {
                     Field::Single(f) if matchname(&f.name, fspec) => {
@@ -622,6 +622,8 @@ impl RegisterExt for Register {
             );
             //field.process(fmod, &self.name, true);
             fs.insert(place, field);
+        } else if !ignore {
+            return Err(anyhow!("{rpath}: fields {fspec} not found"));
         }
         Ok(())
     }
-- 
2.43.0


From bb5f5adbaaa8113667f8e827597d5110d5a4cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 10/50] fix: report read and write action rules that match no
 field

`_RM`, `_W1C` and the like without values were silently ignored when no
field had the given name.
---
 src/patch/register.rs | 54 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index d798762..f4096fd 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -98,10 +98,20 @@ pub trait RegisterExt {
     ) -> PatchResult;
 
     /// Set readAction for field
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction);
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Set modifiedWriteValues for field
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues);
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult;
 
     /// Add a writeConstraint range given by field to all fspec in rtag
     fn process_field_range(
@@ -728,7 +738,7 @@ impl RegisterExt for Register {
                                     .context("Adding read-only enumeratedValues")?;
                                 }
                                 if let Some(action) = action {
-                                    self.set_field_read_action(fspec, *action);
+                                    self.set_field_read_action(fspec, *action, rpath)?;
                                 }
                                 break;
                             }
@@ -748,7 +758,7 @@ impl RegisterExt for Register {
                                     .context("Adding write-only enumeratedValues")?;
                                 }
                                 if let Some(mwv) = mwv {
-                                    self.set_field_modified_write_values(fspec, *mwv);
+                                    self.set_field_modified_write_values(fspec, *mwv, rpath)?;
                                 }
                             }
                         }
@@ -764,22 +774,50 @@ impl RegisterExt for Register {
         Ok(())
     }
 
-    fn set_field_read_action(&mut self, fspec: &str, action: ReadAction) {
-        let (fspec, _) = fspec.spec();
+    fn set_field_read_action(
+        &mut self,
+        fspec: &str,
+        action: ReadAction,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        let mut set_any = false;
+        let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
             ftag.read_action = Some(action);
+            set_any = true;
+        }
+        if !ignore && !set_any {
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{fspec}. Present fields: {present}.`"
+            ));
         }
+        Ok(())
     }
 
-    fn set_field_modified_write_values(&mut self, fspec: &str, mwv: ModifiedWriteValues) {
-        let (fspec, _) = fspec.spec();
+    fn set_field_modified_write_values(
+        &mut self,
+        fspec: &str,
+        mwv: ModifiedWriteValues,
+        rpath: &RegisterPath,
+    ) -> PatchResult {
+        let mut set_any = false;
+        let (fspec, ignore) = fspec.spec();
         for ftag in self.iter_fields(fspec) {
+            set_any = true;
             ftag.modified_write_values = if mwv == ModifiedWriteValues::Modify {
                 None
             } else {
                 Some(mwv)
             };
         }
+        if !ignore && !set_any {
+            let present = self.present_fields();
+            return Err(anyhow!(
+                "Could not find field {rpath}:{fspec}. Present fields: {present}.`"
+            ));
+        }
+        Ok(())
     }
 
     fn process_field_enum(
-- 
2.43.0


From bb61cd85753aaa7bb9f7f34ac0c9992f34034400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 11/50] fix: report derived enumeratedValues rules that match
 no field

They were silently ignored, and the `?~` mark was taken as a part of the
field name.
---
 src/patch/register.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index f4096fd..387b9e4 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -921,6 +921,13 @@ impl RegisterExt for Register {
                 }
             };
             let evs = make_derived_enumerated_values(d)?;
+            let (fspec, ignore) = fspec.spec();
+            if !ignore && self.iter_fields(fspec).next().is_none() {
+                let present = self.present_fields();
+                return Err(anyhow!(
+                    "Could not find field {rpath}:{fspec}. Present fields: {present}."
+                ));
+            }
             for ftag in self.iter_fields(fspec) {
                 let access = ftag.access.or(reg_access).unwrap_or_default();
                 let checked_usage = check_usage(access, usage)
-- 
2.43.0


From de1437df9145da7a29c1a1bba2c7eac858c6c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 12/50] fix: retarget derived registers to the full path of the
 new source

References to a register that is derived from a register of another cluster
were changed to a path that is not valid at their place.
---
 src/patch/peripheral.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cd9aa7b..b0bc60f 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -352,7 +352,7 @@ pub(crate) trait RegisterBlockExt: Name {
                 .regs_mut()
                 .filter(|r| r.derived_from.as_deref() == Some(&rname))
             {
-                r.derived_from = Some(rderive.into());
+                r.derived_from = Some(make_path(rderive, bpath));
             }
         }
         Ok(())
-- 
2.43.0


From 10d8d388b8d719c726d679858d19e34b6c0907ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 13/50] fix: strip what the wildcards of _strip and _strip_end
 match

The length of the pattern was removed from the names, not the length of the
matched part, which left wrong names or panicked on short ones.
---
 src/patch/mod.rs        | 12 ++++++++
 src/patch/peripheral.rs | 62 ++++++++++++++++++-----------------------
 src/patch/register.rs   | 17 +++++------
 3 files changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index c8b4d9a..0c3548c 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -283,6 +283,18 @@ fn newglob(spec: &str) -> globset::GlobMatcher {
         .compile_matcher()
 }
 
+/// Length of the shortest beginning of a name which matches a specification
+fn matched_prefix(name: &str, glob: &globset::GlobMatcher) -> Option<usize> {
+    (0..=name.len()).find(|&i| name.is_char_boundary(i) && glob.is_match(&name[..i]))
+}
+
+/// Start position of the shortest ending of a name which matches a specification
+fn matched_suffix(name: &str, glob: &globset::GlobMatcher) -> Option<usize> {
+    (0..=name.len())
+        .rev()
+        .find(|&i| name.is_char_boundary(i) && glob.is_match(&name[i..]))
+}
+
 /// If a name matches a specification, return the first sub-specification that it matches
 fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
     if spec.contains('{') {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index b0bc60f..cee9b02 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -12,8 +12,9 @@ use super::iterators::{MatchIter, Matched};
 use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
-    adding_pos, check_offsets, common_description, make_dim_element, matchname, matchsubspec,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    adding_pos, check_offsets, common_description, make_dim_element, matched_prefix,
+    matched_suffix, matchname, matchsubspec, modify_dim_element, spec_ind, Config, PatchResult,
+    Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -526,34 +527,33 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the beginning of register names inside ptag
     fn strip_start(&mut self, prefix: &str) -> PatchResult {
-        let len = prefix.len();
-        let glob = globset::Glob::new(&(prefix.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(prefix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
+            if let Some(len) = matched_prefix(&rtag.name, &glob) {
                 rtag.name.drain(..len);
             }
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
+                if let Some(len) = matched_prefix(dname, &glob) {
                     dname.drain(..len);
                 }
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
+                if let Some(len) = matched_prefix(name, &glob) {
                     name.drain(..len);
                 }
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
+            if let Some(len) = matched_prefix(&ctag.name, &glob) {
                 ctag.name.drain(..len);
             }
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
+                if let Some(len) = matched_prefix(dname, &glob) {
                     dname.drain(..len);
                 }
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
+                if let Some(len) = matched_prefix(name, &glob) {
                     name.drain(..len);
                 }
             }
@@ -563,43 +563,34 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Delete substring from the ending of register names inside ptag
     fn strip_end(&mut self, suffix: &str) -> PatchResult {
-        let len = suffix.len();
-        let glob = globset::Glob::new(&("*".to_string() + suffix))
-            .unwrap()
-            .compile_matcher();
+        let glob = globset::Glob::new(suffix)?.compile_matcher();
         for rtag in self.regs_mut() {
-            if glob.is_match(&rtag.name) {
-                let nlen = rtag.name.len();
-                rtag.name.truncate(nlen - len);
+            if let Some(len) = matched_suffix(&rtag.name, &glob) {
+                rtag.name.truncate(len);
             }
             if let Some(dname) = rtag.display_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
+                if let Some(len) = matched_suffix(dname, &glob) {
+                    dname.truncate(len);
                 }
             }
             if let Some(name) = rtag.alternate_register.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
+                if let Some(len) = matched_suffix(name, &glob) {
+                    name.truncate(len);
                 }
             }
         }
         for ctag in self.clstrs_mut() {
-            if glob.is_match(&ctag.name) {
-                let nlen = ctag.name.len();
-                ctag.name.truncate(nlen - len);
+            if let Some(len) = matched_suffix(&ctag.name, &glob) {
+                ctag.name.truncate(len);
             }
             if let Some(dname) = ctag.header_struct_name.as_mut() {
-                if glob.is_match(dname.as_str()) {
-                    let nlen = dname.len();
-                    dname.truncate(nlen - len);
+                if let Some(len) = matched_suffix(dname, &glob) {
+                    dname.truncate(len);
                 }
             }
             if let Some(name) = ctag.alternate_cluster.as_mut() {
-                if glob.is_match(name.as_str()) {
-                    let nlen = name.len();
-                    name.truncate(nlen - len);
+                if let Some(len) = matched_suffix(name, &glob) {
+                    name.truncate(len);
                 }
             }
         }
@@ -849,9 +840,10 @@ pub(crate) trait RegisterBlockExt: Name {
                 (None, None, Some(_)) => {
                     format!(
                         "{}{}",
-                        &ctag
-                            .name
-                            .replace(r#"%s"#, &format!("{}{}", pre_index_delim, &n_dim.to_string())),
+                        &ctag.name.replace(
+                            r#"%s"#,
+                            &format!("{}{}", pre_index_delim, &n_dim.to_string())
+                        ),
                         post_index_delim
                     )
                 }
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 387b9e4..638d72b 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -14,8 +14,8 @@ use crate::patch::EnumAutoDerive;
 use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
-    check_offsets, common_description, make_dim_element, matchname, modify_dim_element, spec_ind,
-    Config, PatchResult, Spec, VAL_LVL,
+    check_offsets, common_description, make_dim_element, matched_prefix, matched_suffix, matchname,
+    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
 
@@ -293,10 +293,9 @@ impl RegisterExt for Register {
     }
 
     fn strip_start(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&(substr.to_string() + "*"))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
+            if let Some(len) = matched_prefix(&ftag.name, &glob) {
                 ftag.name.drain(..len);
             }
         }
@@ -304,12 +303,10 @@ impl RegisterExt for Register {
     }
 
     fn strip_end(&mut self, substr: &str) -> PatchResult {
-        let len = substr.len();
-        let glob = globset::Glob::new(&("*".to_string() + substr))?.compile_matcher();
+        let glob = globset::Glob::new(substr)?.compile_matcher();
         for ftag in self.fields_mut() {
-            if glob.is_match(&ftag.name) {
-                let nlen = ftag.name.len();
-                ftag.name.truncate(nlen - len);
+            if let Some(len) = matched_suffix(&ftag.name, &glob) {
+                ftag.name.truncate(len);
             }
         }
         Ok(())
-- 
2.43.0


From d1f77f0c08ae38f3c3193ec6ee0502b0acb87c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 14/50] fix: reject splitting a field array

Only the first element was split, the bits of all others were lost.
---
 src/patch/register.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 638d72b..fc4b0b0 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -652,6 +652,12 @@ impl RegisterExt for Register {
                     "Only one field can be splitted at time {rpath}:{fspec}"
                 ));
             }
+            (Some(Field::Array(first, _)), None) => {
+                return Err(anyhow!(
+                    "Field array can't be splitted {rpath}:{}",
+                    first.name
+                ));
+            }
             (Some(first), None) => {
                 let name = if let Some(n) = fsplit.get_str("name")? {
                     n.to_string()
-- 
2.43.0


From d494b41019fe4c5057640ec11aae6bada04526c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 15/50] fix: reject merging a field array

Only its first element was counted, the bits of all others were lost.
---
 src/patch/register.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index fc4b0b0..947aff3 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -513,6 +513,9 @@ impl RegisterExt for Register {
             let mut desc = None;
             for (i, f) in fields.iter_mut().enumerate() {
                 if names.contains(&f.name) {
+                    if matches!(f, Field::Array(..)) {
+                        return Err(anyhow!("Field array can't be merged {rpath}:{}", f.name));
+                    }
                     if first {
                         desc.clone_from(&f.description);
                         first = false;
-- 
2.43.0


From a7cf70704f3d063aba06a537151cc63d81e32bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 16/50] fix: list empty included files as dependencies

A file without any content was left out of the dependency list, so nothing was
rebuilt when rules were added to it.
---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 0c3548c..993924d 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -199,13 +199,13 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
+        included.push(path.clone());
         if docs.is_empty() {
             continue;
         }
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         included.extend(yaml_includes(child)?);
-- 
2.43.0


From 05c85213a2683ef5eef789e392827bfdbb82df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 17/50] fix: report files that include themselves

Include cycles recursed until the stack overflowed.
---
 src/patch/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 993924d..3af2870 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -166,6 +166,11 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
 
 /// Recursively loads any included YAML files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
+    load_includes(parent, &mut vec![])
+}
+
+/// Loads included YAML files; `opened` are the files which are being loaded already.
+fn load_includes(parent: &mut Hash, opened: &mut Vec<PathBuf>) -> Result<Vec<PathBuf>> {
     let y_path = "_path".to_yaml();
     let mut included = vec![];
     let self_path = PathBuf::from(parent.get(&y_path).unwrap().str()?);
@@ -177,7 +182,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
                 Yaml::Hash(val) if val.contains_key(&"_include".to_yaml()) => {
                     let ypath = self_path.to_str().unwrap().to_yaml();
                     val.insert(y_path.clone(), ypath.clone());
-                    included.extend(yaml_includes(val)?);
+                    included.extend(load_includes(val, opened)?);
                 }
                 _ => {}
             }
@@ -195,6 +200,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         if included.contains(&path) {
             continue;
         }
+        if opened.contains(&path) {
+            return Err(anyhow!("File {path:?} includes itself"));
+        }
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
@@ -208,7 +216,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         child.insert(y_path.clone(), ypath.clone());
 
         // Process any top-level includes in child
-        included.extend(yaml_includes(child)?);
+        opened.push(path);
+        included.extend(load_includes(child, opened)?);
+        opened.pop();
         update_dict(parent, child)?;
     }
     parent.remove(&"_include".to_yaml());
-- 
2.43.0


From edbfaffbcef81daa9712de81b68ffdbeb1af5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:52 +0000
Subject: [PATCH 18/50] fix: accept hexadecimal and binary interrupt numbers

The interrupts command panicked on every number notation of SVD files but the
decimal one.
---
 src/interrupts/svd_reader.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/interrupts/svd_reader.rs b/src/interrupts/svd_reader.rs
index 45a98cf..4db7958 100644
--- a/src/interrupts/svd_reader.rs
+++ b/src/interrupts/svd_reader.rs
@@ -1,5 +1,5 @@
 use quick_xml::de;
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 use std::io::{BufReader, Read};
 
 #[derive(Deserialize, Debug)]
@@ -23,9 +23,24 @@ struct PeripheralXml {
 pub struct Interrupt {
     pub name: String,
     pub description: Option<String>,
+    #[serde(deserialize_with = "parse_value")]
     pub value: u32,
 }
 
+/// Numbers may be decimal, hexadecimal or binary
+fn parse_value<'de, D: Deserializer<'de>>(deserializer: D) -> Result<u32, D::Error> {
+    let text = String::deserialize(deserializer)?;
+    let text = text.trim();
+    if let Some(hex) = text.strip_prefix("0x").or(text.strip_prefix("0X")) {
+        u32::from_str_radix(hex, 16)
+    } else if let Some(bin) = text.strip_prefix("0b").or(text.strip_prefix('#')) {
+        u32::from_str_radix(&bin.to_lowercase().replace('x', "0"), 2)
+    } else {
+        text.parse()
+    }
+    .map_err(serde::de::Error::custom)
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Peripheral {
     pub name: String,
-- 
2.43.0


From 02b9829b1a4d97e9fa88796481e7098d7019fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 19/50] fix: list the registers of peripherals derived over
 several steps in mmap

Only the direct father was looked at, which has no registers of its own when it
is derived itself.
---
 src/mmap/mmap_cli.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mmap/mmap_cli.rs b/src/mmap/mmap_cli.rs
index 0a0eddd..5ea1e44 100644
--- a/src/mmap/mmap_cli.rs
+++ b/src/mmap/mmap_cli.rs
@@ -56,19 +56,18 @@ fn get_periph_registers<'a>(
     peripheral: &'a PeripheralInfo,
     peripheral_list: &'a [Peripheral],
 ) -> &'a Option<Vec<RegisterCluster>> {
-    match &peripheral.derived_from {
-        None => &peripheral.registers,
-        Some(father) => {
-            let mut registers = &None;
-            for p in peripheral_list {
-                if &p.name == father {
-                    registers = &p.registers;
-                    break;
-                }
-            }
-            registers
+    let mut source = peripheral;
+    // a father may be derived itself
+    for _ in peripheral_list {
+        match &source.derived_from {
+            None => break,
+            Some(father) => match peripheral_list.iter().find(|p| &p.name == father) {
+                Some(p) => source = p,
+                None => return &None,
+            },
         }
     }
+    &source.registers
 }
 
 fn get_peripheral(peripheral: &PeripheralInfo, mmap: &mut Vec<String>) {
-- 
2.43.0


From 241c267df231101bac5ce2e8837e09330508815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 20/50] fix: refuse numbers in patches that do not fit in 32
 bits

---
 src/patch/device.rs   |  4 ++--
 src/patch/mod.rs      | 30 +++++++++++++++---------------
 src/patch/yaml_ext.rs | 14 +++++++++++++-
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index e7a3cb1..2705de7 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -128,8 +128,8 @@ impl DeviceExt for Device {
                 "headerDefinitionsPrefix" => {
                     self.header_definitions_prefix = Some(val.str()?.into())
                 }
-                "addressUnitBits" => self.address_unit_bits = val.i64()? as u32,
-                "width" => self.width = val.i64()? as u32,
+                "addressUnitBits" => self.address_unit_bits = val.u32()?,
+                "width" => self.width = val.u32()?,
                 "size" | "access" | "protection" | "resetValue" | "resetMask" => {
                     modify_register_properties(&mut self.default_register_properties, key, val)?;
                 }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 3af2870..37141a7 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -325,7 +325,7 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
 
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
-        "size" => p.size = Some(val.i64()? as u32),
+        "size" => p.size = Some(val.u32()?),
         "access" => p.access = Access::parse_str(val.str()?),
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
@@ -526,16 +526,16 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
         fnew = fnew.name(name.into());
     }
     // NOTE: support only both `msb` and `lsb` passed together
-    if let (Some(msb), Some(lsb)) = (fadd.get_i64("msb")?, fadd.get_i64("lsb")?) {
-        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb as _, lsb as _));
+    if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
         fnew = fnew.bit_range(bit_range);
     } else {
-        if let Some(offset) = fadd.get_i64("bitOffset")? {
-            fnew = fnew.bit_offset(offset as u32)
+        if let Some(offset) = fadd.get_u32("bitOffset")? {
+            fnew = fnew.bit_offset(offset)
         }
-        if let Some(width) = fadd.get_i64("bitWidth")? {
-            fnew = fnew.bit_width(width as u32)
+        if let Some(width) = fadd.get_u32("bitWidth")? {
+            fnew = fnew.bit_width(width)
         }
     }
 
@@ -575,8 +575,8 @@ fn make_register(radd: &Hash, path: Option<&BlockPath>) -> Result<RegisterInfoBu
     if let Some(name) = radd.get_str("name")? {
         rnew = rnew.name(name.into());
     }
-    if let Some(address_offset) = radd.get_i64("addressOffset")? {
-        rnew = rnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = radd.get_u32("addressOffset")? {
+        rnew = rnew.address_offset(address_offset);
     }
 
     Ok(rnew)
@@ -637,8 +637,8 @@ fn make_cluster(cadd: &Hash, path: Option<&BlockPath>) -> Result<ClusterInfoBuil
     if let Some(name) = cadd.get_str("name")? {
         cnew = cnew.name(name.into());
     }
-    if let Some(address_offset) = cadd.get_i64("addressOffset")? {
-        cnew = cnew.address_offset(address_offset as u32);
+    if let Some(address_offset) = cadd.get_u32("addressOffset")? {
+        cnew = cnew.address_offset(address_offset);
     }
     Ok(cnew)
 }
@@ -648,8 +648,8 @@ fn make_interrupt(iadd: &Hash) -> Result<InterruptBuilder> {
     if let Some(name) = iadd.get_string("name")? {
         int = int.name(name)
     }
-    if let Some(value) = iadd.get_i64("value")? {
-        int = int.value(value as u32)
+    if let Some(value) = iadd.get_u32("value")? {
+        int = int.value(value)
     }
     Ok(int)
 }
@@ -751,8 +751,8 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(fpu_present) = cmod.get_bool("fpuPresent")? {
         cpu = cpu.fpu_present(fpu_present);
     }
-    if let Some(nvic_priority_bits) = cmod.get_i64("nvicPrioBits")? {
-        cpu = cpu.nvic_priority_bits(nvic_priority_bits as u32);
+    if let Some(nvic_priority_bits) = cmod.get_u32("nvicPrioBits")? {
+        cpu = cpu.nvic_priority_bits(nvic_priority_bits);
     }
     if let Some(has_vendor_systick) = cmod.get_bool("vendorSystickConfig")? {
         cpu = cpu.has_vendor_systick(has_vendor_systick);
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index db193e5..ec25745 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -16,6 +16,8 @@ pub enum YamlError {
     NotInt(Yaml),
     #[error("Value is not boolean: {0:?}")]
     NotBool(Yaml),
+    #[error("Value is not an unsigned 32-bit integer: {0:?}")]
+    NotU32(Yaml),
 }
 
 pub trait AsType {
@@ -24,6 +26,7 @@ pub trait AsType {
     fn vec(&self) -> Result<&Vec<Yaml>, YamlError>;
     fn str(&self) -> Result<&str, YamlError>;
     fn i64(&self) -> Result<i64, YamlError>;
+    fn u32(&self) -> Result<u32, YamlError>;
     fn bool(&self) -> Result<bool, YamlError>;
 }
 
@@ -47,6 +50,9 @@ impl AsType for Yaml {
     fn i64(&self) -> Result<i64, YamlError> {
         parse_i64(self).ok_or_else(|| YamlError::NotInt(self.clone()))
     }
+    fn u32(&self) -> Result<u32, YamlError> {
+        u32::try_from(self.i64()?).map_err(|_| YamlError::NotU32(self.clone()))
+    }
     fn bool(&self) -> Result<bool, YamlError> {
         parse_bool(self).ok_or_else(|| YamlError::NotBool(self.clone()))
     }
@@ -175,7 +181,13 @@ where
         self.get_i64(k).map(|v| v.map(|v| v as u64))
     }
     fn get_u32(&self, k: &K) -> Result<Option<u32>> {
-        self.get_i64(k).map(|v| v.map(|v| v as u32))
+        match self.get_yaml(k) {
+            None => Ok(None),
+            Some(v) => v
+                .u32()
+                .with_context(|| format!("Under key `{k:?}`"))
+                .map(Some),
+        }
     }
     fn get_str(&self, k: &K) -> Result<Option<&str>> {
         match self.get_yaml(k) {
-- 
2.43.0


From a14d1fc25bfa13d9bb73c86eeb00b904d1d107ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 21/50] fix: refuse fields whose msb is below their lsb

---
 src/patch/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 37141a7..cb23e1c 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -527,6 +527,9 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
     }
     // NOTE: support only both `msb` and `lsb` passed together
     if let (Some(msb), Some(lsb)) = (fadd.get_u32("msb")?, fadd.get_u32("lsb")?) {
+        if msb < lsb {
+            return Err(anyhow!("msb {msb} is below lsb {lsb}"));
+        }
         fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
     } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
         fnew = fnew.bit_range(bit_range);
-- 
2.43.0


From 3d24f272a6d510fd7bc3053623da01ceffca2781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 22/50] fix: report an empty patch file as an error

---
 src/patch/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index cb23e1c..5e3f0bf 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -78,7 +78,10 @@ pub fn load_patch(yaml_file: &Path) -> Result<Yaml> {
     let mut contents = String::new();
     (&f).read_to_string(&mut contents)?;
     let docs = YamlLoader::load_from_str(&contents)?;
-    let mut doc = docs.into_iter().next().unwrap(); // select the first document
+    let mut doc = docs
+        .into_iter()
+        .next() // select the first document
+        .ok_or_else(|| anyhow!("File {} is empty", yaml_file.display()))?;
     let root = doc.hash_mut()?;
     root.insert("_path".to_yaml(), yaml_file.to_str().unwrap().to_yaml());
 
-- 
2.43.0


From 127bddc0d4a834dba19918dcbc54dc863aa14187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 23/50] fix: report write constraint ranges with less than two
 numbers as errors

---
 src/patch/mod.rs      | 17 +++++++++++++----
 src/patch/register.rs |  9 ++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 5e3f0bf..eacffb9 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -469,6 +469,18 @@ fn make_dim_element(h: &Hash) -> Result<Option<DimElementBuilder>> {
     })
 }
 
+fn make_write_range(a: &[Yaml]) -> Result<WriteConstraintRange> {
+    let Some((min, max)) = a.first().zip(a.get(1)) else {
+        return Err(anyhow!(
+            "writeConstraint range needs a minimum and a maximum"
+        ));
+    };
+    Ok(WriteConstraintRange {
+        min: min.i64()? as u64,
+        max: max.i64()? as u64,
+    })
+}
+
 fn make_dim_array_index(h: &Hash) -> Result<DimArrayIndex> {
     let mut values = Vec::new();
     for (vname, vd) in h {
@@ -604,10 +616,7 @@ fn get_write_constraint(h: &Hash) -> Result<Option<WriteConstraint>> {
             }
             Yaml::Array(a) => {
                 // Allow a certain range
-                Ok(Some(WriteConstraint::Range(WriteConstraintRange {
-                    min: a[0].i64()? as u64,
-                    max: a[1].i64()? as u64,
-                })))
+                Ok(Some(WriteConstraint::Range(make_write_range(a)?)))
             }
             _ => Err(anyhow!("Unknown writeConstraint type {write_constraint:?}")),
         }
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 947aff3..5cdc6b4 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -17,7 +17,9 @@ use super::{
     check_offsets, common_description, make_dim_element, matched_prefix, matched_suffix, matchname,
     modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
 };
-use super::{make_derived_enumerated_values, make_ev_array, make_ev_name, make_field};
+use super::{
+    make_derived_enumerated_values, make_ev_array, make_ev_name, make_field, make_write_range,
+};
 
 pub type FieldMatchIterMut<'a, 'b> = MatchIter<'b, std::slice::IterMut<'a, Field>>;
 
@@ -356,10 +358,7 @@ impl RegisterExt for Register {
                         }
                         Yaml::Array(a) => {
                             // Allow a certain range
-                            Some(WriteConstraint::Range(WriteConstraintRange {
-                                min: a[0].i64()? as u64,
-                                max: a[1].i64()? as u64,
-                            }))
+                            Some(WriteConstraint::Range(make_write_range(a)?))
                         }
                         _ => return Err(anyhow!("Unknown writeConstraint type {value:?}")),
                     };
-- 
2.43.0


From fba53c0fd543de5239dc33d50cd998d9c52ab3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 24/50] fix: refuse peripherals derived from themselves,
 directly or over several steps

---
 src/patch/device.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 2705de7..5dc13c5 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -74,6 +74,24 @@ pub trait DeviceExt {
     ) -> PatchResult;
 }
 
+/// Is peripheral `name` the same as `base` or, maybe over several steps, derived from it?
+fn comes_from(device: &Device, name: &str, base: &str) -> bool {
+    let mut name = name;
+    for _ in 0..=device.peripherals.len() {
+        if name == base {
+            return true;
+        }
+        let source = device
+            .get_peripheral(name)
+            .and_then(|p| p.derived_from.as_deref());
+        match source {
+            Some(source) => name = source,
+            None => return false,
+        }
+    }
+    false
+}
+
 impl DeviceExt for Device {
     fn iter_peripherals<'a, 'b>(&'a mut self, spec: &'b str) -> PerMatchIterMut<'a, 'b> {
         self.peripherals.iter_mut().matched(spec)
@@ -333,6 +351,12 @@ impl DeviceExt for Device {
             return Err(anyhow!("derive: incorrect syntax for {pname}"));
         };
 
+        if comes_from(self, pderive, pname) {
+            return Err(anyhow!(
+                "peripheral {pname} can't be derived from {pderive}, which depends on it"
+            ));
+        }
+
         let derived_pos = if !pderive.contains('.') {
             let Some((i, _)) = self
                 .peripherals
@@ -385,6 +409,11 @@ impl DeviceExt for Device {
     }
 
     fn rebase_peripheral(&mut self, pnew: &str, pold: &str) -> PatchResult {
+        if comes_from(self, pold, pnew) {
+            return Err(anyhow!(
+                "peripheral {pnew} can't be the base of {pold}, which depends on it"
+            ));
+        }
         let (mut min_pos, old) = self
             .peripherals
             .iter_mut()
-- 
2.43.0


From c9c7b19423c1fa79329bfb812a476ec291898e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 25/50] fix: refuse registers derived from themselves, directly
 or over several steps

---
 src/patch/peripheral.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index cee9b02..97a2edb 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -329,9 +329,27 @@ pub(crate) trait RegisterBlockExt: Name {
             })?;
         }
 
+        // The registers the source itself depends on
+        let mut sources = vec![rderive.to_string()];
+        while let Some(source) = self
+            .get_reg(&sources[sources.len() - 1])
+            .and_then(|r| r.derived_from.clone())
+        {
+            if sources.contains(&source) {
+                break;
+            }
+            sources.push(source);
+        }
+
         let rtags = self.iter_registers(rspec).collect::<Vec<_>>();
         let mut found = Vec::new();
         if !rtags.is_empty() {
+            if let Some(rtag) = rtags.iter().find(|r| sources.contains(&r.name)) {
+                return Err(anyhow!(
+                    "register {} can't be derived from {rderive}, which depends on it",
+                    rtag.name
+                ));
+            }
             for rtag in rtags {
                 found.push(rtag.name.to_string());
                 modify_dim_element(rtag, &dim)?;
-- 
2.43.0


From 5257bf05ac226291b152b92004dc4a1b5d836ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 26/50] fix: report a copied peripheral without source as an
 error

---
 src/patch/device.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 5dc13c5..ef9587d 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -208,7 +208,12 @@ impl DeviceExt for Device {
     fn copy_peripheral(&mut self, pname: &str, pmod: &Hash, path: &Path) -> PatchResult {
         let pcopysrc = pmod
             .get_str("from")?
-            .unwrap()
+            .ok_or_else(|| {
+                anyhow!(
+                    "copy: source peripheral not given, please add a from field to {}",
+                    pname
+                )
+            })?
             .split(':')
             .collect::<Vec<_>>();
         let mut new = match pcopysrc.as_slice() {
-- 
2.43.0


From 722f34801686a7d02acd99d71042c7dff8376074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 27/50] fix: report rules that derive or copy clusters as
 errors

---
 src/patch/peripheral.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 97a2edb..9233426 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -379,8 +379,10 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Remove fields from rname and mark it as derivedFrom rderive.
     /// Update all derivedFrom referencing rname
-    fn derive_cluster(&mut self, _cspec: &str, _cderive: &Yaml, _bpath: &BlockPath) -> PatchResult {
-        todo!()
+    fn derive_cluster(&mut self, cspec: &str, _cderive: &Yaml, bpath: &BlockPath) -> PatchResult {
+        Err(anyhow!(
+            "Deriving clusters is not supported: {bpath}:{cspec}"
+        ))
     }
 
     /// Add rname given by deriving from rcopy to ptag
@@ -415,8 +417,10 @@ pub(crate) trait RegisterBlockExt: Name {
     }
 
     /// Add cname given by deriving from ccopy to ptag
-    fn copy_cluster(&mut self, _rname: &str, _ccopy: &Hash, _bpath: &BlockPath) -> PatchResult {
-        todo!()
+    fn copy_cluster(&mut self, cname: &str, _ccopy: &Hash, bpath: &BlockPath) -> PatchResult {
+        Err(anyhow!(
+            "Copying clusters is not supported: {bpath}:{cname}"
+        ))
     }
 
     fn modify_child(&mut self, rcspec: &str, rcmod: &Hash, bpath: &BlockPath) -> PatchResult {
-- 
2.43.0


From a3d98bb7e2d2e4e91348319479c50f8b84d3f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 28/50] fix: report names too short to have an index as errors

---
 src/patch/mod.rs        |  9 +++++++++
 src/patch/peripheral.rs | 10 +++++-----
 src/patch/register.rs   |  6 +++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index eacffb9..7c27020 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -808,6 +808,15 @@ fn spec_ind(spec: &str) -> Option<(usize, usize)> {
     Some((li, ri))
 }
 
+/// The part of a name between its first `li` and its last `ri` characters
+fn name_index(name: &str, li: usize, ri: usize) -> Result<String> {
+    name.len()
+        .checked_sub(ri)
+        .and_then(|end| name.get(li..end))
+        .map(Into::into)
+        .ok_or_else(|| anyhow!("`{name}` has no index where the others have one"))
+}
+
 fn check_offsets(offsets: &[u32], dim_increment: u32) -> bool {
     let mut it = offsets.windows(2);
     while let Some(&[o1, o2]) = it.next() {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 9233426..e61a464 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -13,8 +13,8 @@ use super::register::{RegisterExt, RegisterInfoExt};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     adding_pos, check_offsets, common_description, make_dim_element, matched_prefix,
-    matched_suffix, matchname, matchsubspec, modify_dim_element, spec_ind, Config, PatchResult,
-    Spec, VAL_LVL,
+    matched_suffix, matchname, matchsubspec, modify_dim_element, name_index, spec_ind, Config,
+    PatchResult, Spec, VAL_LVL,
 };
 use super::{make_cluster, make_interrupt, make_register};
 
@@ -1678,8 +1678,8 @@ fn collect_in_array(
     } else {
         registers
             .iter()
-            .map(|r| r.name[li..r.name.len() - ri].to_string())
-            .collect::<Vec<_>>()
+            .map(|r| name_index(&r.name, li, ri))
+            .collect::<Result<Vec<_>, _>>()?
     };
     let offsets = registers
         .iter()
@@ -1836,7 +1836,7 @@ fn collect_in_cluster(
                             "`{match_rspec}` contains no tokens or contains more than one token"
                         ));
                     };
-                    Ok(r.name[li..r.name.len() - ri].to_string())
+                    name_index(&r.name, li, ri)
                 })
                 .collect::<Result<Vec<_>, _>>();
             let new_dim_index = new_dim_index?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 5cdc6b4..23ccce2 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -15,7 +15,7 @@ use super::iterators::{MatchIter, Matched};
 use super::yaml_ext::{AsType, GetVal, ToYaml};
 use super::{
     check_offsets, common_description, make_dim_element, matched_prefix, matched_suffix, matchname,
-    modify_dim_element, spec_ind, Config, PatchResult, Spec, VAL_LVL,
+    modify_dim_element, name_index, spec_ind, Config, PatchResult, Spec, VAL_LVL,
 };
 use super::{
     make_derived_enumerated_values, make_ev_array, make_ev_name, make_field, make_write_range,
@@ -589,8 +589,8 @@ impl RegisterExt for Register {
             } else {
                 fields
                     .iter()
-                    .map(|f| f.name[li..f.name.len() - ri].to_string())
-                    .collect::<Vec<_>>()
+                    .map(|f| name_index(&f.name, li, ri))
+                    .collect::<Result<Vec<_>, _>>()?
             };
             let offsets = fields
                 .iter()
-- 
2.43.0


From 07334f7ea6bf7a365be38e437317a4bc2d5eeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 29/50] fix: accept the empty name of an enumeratedValue
 without a crash

---
 src/patch/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 7c27020..9674b02 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -347,7 +347,7 @@ fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
 }
 
 fn make_ev_name(name: &str, usage: Option<Usage>) -> Result<String> {
-    if name.as_bytes()[0].is_ascii_digit() {
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
         return Err(anyhow!(
             "enumeratedValue {}: can't start with a number",
             name
@@ -366,7 +366,7 @@ fn make_ev_array(values: &Hash) -> Result<EnumeratedValuesBuilder> {
     for (n, vd) in values {
         let vname = n.str()?;
         if !vname.starts_with('_') {
-            if vname.as_bytes()[0].is_ascii_digit() {
+            if vname.starts_with(|c: char| c.is_ascii_digit()) {
                 return Err(anyhow!(
                     "enumeratedValue {} can't start with a number",
                     vname
-- 
2.43.0


From a42a3658ab8ac4cf8fa1de3e25b98b96a569009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 30/50] fix: report an empty file given to makedeps as an error

---
 src/makedeps/makedeps_cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/makedeps/makedeps_cli.rs b/src/makedeps/makedeps_cli.rs
index 92906a1..ea229a7 100644
--- a/src/makedeps/makedeps_cli.rs
+++ b/src/makedeps/makedeps_cli.rs
@@ -35,8 +35,8 @@ pub fn makedeps(yaml_file: &Path, deps_file: &Path) -> Result<()> {
     let mut contents = String::new();
     (&f).read_to_string(&mut contents)?;
     let mut docs = YamlLoader::load_from_str(&contents)?;
-    match &mut docs[0] {
-        Yaml::Hash(root) => {
+    match docs.first_mut() {
+        Some(Yaml::Hash(root)) => {
             root.insert(
                 Yaml::String("_path".into()),
                 Yaml::String(yaml_file.to_str().unwrap().into()),
-- 
2.43.0


From 26afaeb904dbb087c81de62874306cc59acb9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 31/50] fix: report register arrays with less names than
 elements as errors when expanding

---
 src/patch/peripheral.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index e61a464..a28a2a7 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -906,6 +906,12 @@ pub(crate) trait RegisterBlockExt: Name {
                         if matchname(&r.name, rspec) =>
                     {
                         found = true;
+                        if matches!(&d.dim_index, Some(index) if index.len() < d.dim as usize) {
+                            return Err(anyhow!(
+                                "Register {} has less names in dimIndex than elements",
+                                r.name
+                            ));
+                        }
                         for ri in svd::register::expand(&r, &d) {
                             regs.push(RegisterCluster::Register(ri.single()))
                         }
-- 
2.43.0


From fe5d144d7810c0cb20879b82081de5eaf02bdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 32/50] fix: keep SVD files in the output directory of html,
 which were emptied

---
 src/html/html_cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 970bd79..e9ff436 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -541,7 +541,11 @@ fn generate_if_newer(
         let svdfile_name = svdfile.file_name().unwrap();
         let mut file = std::fs::File::create(filename)?;
         generate_device_page(template, device, &mut file)?;
-        std::fs::copy(svdfile, htmldir.join(svdfile_name))?;
+        let svdcopy = htmldir.join(svdfile_name);
+        // copying a file onto itself would empty it
+        if !svdcopy.exists() || svdcopy.canonicalize()? != svdfile.canonicalize()? {
+            std::fs::copy(svdfile, svdcopy)?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From c0dca114ca31fff3d46f4aded35f257cbf791bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 33/50] fix: report unreadable and invalid SVD files given to
 html as errors

---
 src/html/html_cli.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index e9ff436..9cb3a5f 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -566,16 +566,16 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
     let mut devices = svdfiles
         .par_iter()
         .map(|f| {
-            let device = process_svd(f).unwrap();
-            generate_if_newer(&template, &device, htmldir).unwrap();
-            object!({
+            let device = process_svd(f)?;
+            generate_if_newer(&template, &device, htmldir)?;
+            Ok(object!({
                 "name": device.get("name"),
                 "progress": device.get("progress"),
                 "fields_documented": device.get("fields_documented"),
                 "fields_total": device.get("fields_total"),
-            })
+            }))
         })
-        .collect::<Vec<_>>();
+        .collect::<anyhow::Result<Vec<_>>>()?;
     devices.sort_by_key(|d| d.get_str("name").map(|s| s.to_lowercase()));
 
     let mut file = std::fs::File::create(htmldir.join("index.html"))?;
-- 
2.43.0


From 919243489a6535a86fcfd54c9d8f6272b11b8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 34/50] fix: accept fields beyond bit 31 and of all widths in
 html

---
 src/html/html_cli.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 9cb3a5f..7b4c5fb 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -275,7 +275,7 @@ fn parse_register(
 
     flds.sort_by_key(|f| f.0.bit_offset());
 
-    let mut filling = 0_u64;
+    let mut filled_bits = 0_u32;
 
     let mut fields = Vec::with_capacity(flds.len());
     for (ftag, fpath) in &flds {
@@ -283,8 +283,10 @@ fn parse_register(
 
         let foffset = ftag.bit_offset();
         let fwidth = ftag.bit_width();
-        let bit_mask = (u64::MAX >> (u64::BITS - fwidth)) << foffset;
-        filling |= bit_mask;
+        if foffset + fwidth > rsize {
+            return Err(anyhow!("Wrong field offset/width"));
+        }
+        filled_bits = filled_bits.max(foffset + fwidth);
 
         let faccs = ftag.access.map(Access::as_str).unwrap_or(raccs);
         let enums = ftag.enumerated_values.first();
@@ -367,9 +369,6 @@ fn parse_register(
             };
         }
         let fwidth = ftag.bit_width();
-        if foffset + fwidth > rsize {
-            return Err(anyhow!("Wrong field offset/width"));
-        }
         let fdoc = !ftag.enumerated_values.is_empty() || ftag.write_constraint.is_some();
         for idx in foffset..(foffset + fwidth).min(32) {
             let trowidx = ((31 - idx) / 16) as usize;
@@ -400,9 +399,9 @@ fn parse_register(
         }
     }
     let table = vec![
-        (filling > u16::MAX as u64)
+        (filled_bits > 16)
             .then(|| object!({"headers": (16..32).rev().collect::<Vec<_>>(), "fields": table[0]})),
-        (filling > 0)
+        (filled_bits > 0)
             .then(|| object!({"headers": (0..16).rev().collect::<Vec<_>>(), "fields": table[1]})),
     ];
 
@@ -594,5 +593,5 @@ fn enums_to_map(evs: &EnumeratedValues) -> BTreeMap<u64, &EnumeratedValue> {
 }
 
 fn minimal_hole(map: &BTreeMap<u64, &EnumeratedValue>, width: u32) -> Option<u64> {
-    (0..(1u64 << width)).find(|&v| !map.contains_key(&v))
+    (0..=(u64::MAX >> u64::BITS.saturating_sub(width))).find(|&v| !map.contains_key(&v))
 }
-- 
2.43.0


From 57ebcdbdcaf62dfb2fc00e1f0914b89b97d3dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 35/50] fix: show the registers of clusters inside of clusters
 in html

---
 src/html/html_cli.rs | 50 +++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 7b4c5fb..c23bc90 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -142,11 +142,14 @@ impl GetI64 for Object {
 /// with their names updated to include the cluster index and their address
 /// offsets updated to include the cluster address offset.
 /// The returned register nodes are as though they were never in a cluster.
+/// `base` and `suffix` are the address offset and the indexes of the outer clusters.
 fn parse_cluster(
     ctag: &Cluster,
     registers: &mut Vec<Object>,
     cpath: &BlockPath,
     index: &Index,
+    base: u32,
+    suffix: &str,
 ) -> anyhow::Result<()> {
     let mut cpath = cpath.clone();
     let ctag = if let Some(dfname) = ctag.derived_from.as_ref() {
@@ -158,28 +161,31 @@ fn parse_cluster(
     } else {
         Cow::Borrowed(ctag)
     };
-    match ctag.as_ref() {
-        Cluster::Single(c) => {
-            let mut regs: Vec<Register> = c.registers().cloned().collect();
-            let cluster_addr = c.address_offset;
-            for r in &mut regs {
-                let rpath = cpath.new_register(&r.name);
-                r.name = format!("{} [0]", r.name);
-                r.address_offset += cluster_addr;
-                parse_register_array(r, registers, &rpath, index)?;
-            }
+    let instances = match ctag.as_ref() {
+        Cluster::Single(_) => vec![(base, format!("{suffix} [0]"))],
+        Cluster::Array(_, d) => d
+            .indexes()
+            .enumerate()
+            .map(|(i, idx)| {
+                (
+                    base + (i as u32) * d.dim_increment,
+                    format!("{suffix} [{idx}]"),
+                )
+            })
+            .collect(),
+    };
+    for (base, suffix) in instances {
+        let cluster_addr = base + ctag.address_offset;
+        for r in ctag.registers() {
+            let rpath = cpath.new_register(&r.name);
+            let mut r = r.clone();
+            r.name = format!("{}{suffix}", r.name);
+            r.address_offset += cluster_addr;
+            parse_register_array(&r, registers, &rpath, index)?;
         }
-        Cluster::Array(c, d) => {
-            for (i, cluster_idx) in d.indexes().enumerate() {
-                let mut regs: Vec<Register> = c.registers().cloned().collect();
-                let cluster_addr = c.address_offset + (i as u32) * d.dim_increment;
-                for r in &mut regs {
-                    let rpath = cpath.new_register(&r.name);
-                    r.name = format!("{} [{cluster_idx}]", r.name);
-                    r.address_offset += cluster_addr;
-                    parse_register_array(r, registers, &rpath, index)?;
-                }
-            }
+        for c in ctag.clusters() {
+            let cpath = cpath.new_cluster(&c.name);
+            parse_cluster(c, registers, &cpath, index, cluster_addr, &suffix)?;
         }
     }
     Ok(())
@@ -459,7 +465,7 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
         };
         for ctag in ptag.clusters() {
             let cpath = ppath.new_cluster(&ctag.name);
-            parse_cluster(ctag, &mut registers, &cpath, &index)
+            parse_cluster(ctag, &mut registers, &cpath, &index, 0, "")
                 .with_context(|| format!("In cluster {}", ctag.name))
                 .with_context(|| format!("In peripheral {}", ptag.name))?;
         }
-- 
2.43.0


From ca5bb3be93e84aaf019cf8dd0ec3e9f4f594fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 36/50] fix: show every peripheral of an array in html

---
 src/html/html_cli.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index c23bc90..d2e0f0e 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -23,7 +23,10 @@ use svd_parser::expand::{
 };
 use svd_parser::{
     expand::{derive_peripheral, Index},
-    svd::{Access, Cluster, Register, RegisterInfo, WriteConstraint},
+    svd::{
+        peripheral::expand as expand_peripheral, Access, Cluster, Peripheral, Register,
+        RegisterInfo, WriteConstraint,
+    },
 };
 use svd_rs::{EnumeratedValue, EnumeratedValues, ModifiedWriteValues, ReadAction};
 
@@ -452,7 +455,6 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
         let mut registers = Vec::new();
         let mut peripheral_fields_total = 0;
         let mut peripheral_fields_documented = 0;
-        let pname = &ptag.name;
         let mut ppath = BlockPath::new(&ptag.name);
         let ptag = if let Some(dfname) = ptag.derived_from.as_ref() {
             let mut ptag = ptag.clone();
@@ -487,17 +489,23 @@ fn parse_device(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
             peripheral_fields_documented += register.get_i64("fields_documented").unwrap();
         }
 
-        peripherals.push(object!({
-            "name": pname,
-            "base": format!("0x{:08x}", ptag.base_address),
-            "description": ptag.description.as_deref().map(sanitize),
-            "registers": registers,
-            "fields_total": peripheral_fields_total,
-            "fields_documented": peripheral_fields_documented,
-            "progress": progress(peripheral_fields_documented, peripheral_fields_total),
-        }));
-        device_fields_total += peripheral_fields_total;
-        device_fields_documented += peripheral_fields_documented;
+        let instances = match ptag.as_ref() {
+            Peripheral::Single(p) => vec![p.clone()],
+            Peripheral::Array(p, d) => expand_peripheral(p, d).collect(),
+        };
+        for p in instances {
+            peripherals.push(object!({
+                "name": p.name,
+                "base": format!("0x{:08x}", p.base_address),
+                "description": p.description.as_deref().map(sanitize),
+                "registers": registers,
+                "fields_total": peripheral_fields_total,
+                "fields_documented": peripheral_fields_documented,
+                "progress": progress(peripheral_fields_documented, peripheral_fields_total),
+            }));
+            device_fields_total += peripheral_fields_total;
+            device_fields_documented += peripheral_fields_documented;
+        }
     }
 
     Ok(object!({
-- 
2.43.0


From 651aa8e6e47fea7f50568f14ed7f0514935d485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 37/50] fix: make html pages again when making them was
 interrupted

---
 src/html/html_cli.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index d2e0f0e..7bcf7cc 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -552,13 +552,16 @@ fn generate_if_newer(
         let svdfile = device.get_str("svdfile").unwrap();
         let svdfile = Path::new(svdfile.as_ref());
         let svdfile_name = svdfile.file_name().unwrap();
-        let mut file = std::fs::File::create(filename)?;
-        generate_device_page(template, device, &mut file)?;
         let svdcopy = htmldir.join(svdfile_name);
         // copying a file onto itself would empty it
         if !svdcopy.exists() || svdcopy.canonicalize()? != svdfile.canonicalize()? {
             std::fs::copy(svdfile, svdcopy)?;
         }
+        // a page is there only when it is complete, as it is not made again then
+        let part = htmldir.join(format!("{pagename}.part"));
+        let mut file = std::fs::File::create(&part)?;
+        generate_device_page(template, device, &mut file)?;
+        std::fs::rename(part, filename)?;
     }
 
     Ok(())
-- 
2.43.0


From 6662a9555bb8e1e8fe56d4864b786e9aa16c25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 38/50] fix: tell files with the same name apart in htmlcompare

---
 src/html/htmlcompare_cli.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/html/htmlcompare_cli.rs b/src/html/htmlcompare_cli.rs
index 1979d7f..d11530f 100644
--- a/src/html/htmlcompare_cli.rs
+++ b/src/html/htmlcompare_cli.rs
@@ -19,15 +19,8 @@ fn parse(in_path: &Path) -> Result<Part> {
 
     let device =
         svd_parser::parse_with_config(&input, &Config::default().expand(true).ignore_enums(true))?;
-    let name = in_path
-        .file_stem()
-        .unwrap()
-        .to_str()
-        .unwrap()
-        .split('.')
-        .next()
-        .unwrap()
-        .to_string();
+    // parts are told apart by this, also when their files have the same name
+    let name = in_path.display().to_string();
     //dbg!(&name);
     Ok(Part { name, device })
 }
-- 
2.43.0


From 82bd8f799354b875baafaa85cf940679b82644ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 39/50] fix: report invalid values in a format configuration as
 errors

---
 src/lib.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 78f4866..185927c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -46,9 +46,13 @@ pub(crate) fn get_encoder_config(
         };
 
         let mut config = svd_encoder::Config::default();
-        config_map
-            .iter()
-            .for_each(|(name, value)| config.update(name, value));
+        for (name, value) in &config_map {
+            // `Config::update` panics if the value is not valid
+            if !is_valid_config_value(name, value) {
+                return Err(anyhow!("Invalid value `{value}` of config key `{name}`"));
+            }
+            config.update(name, value);
+        }
 
         config
     } else {
@@ -56,5 +60,33 @@ pub(crate) fn get_encoder_config(
     })
 }
 
+fn is_valid_config_value(name: &str, value: &str) -> bool {
+    match name {
+        "peripheral_name"
+        | "interrupt_name"
+        | "cluster_name"
+        | "register_name"
+        | "field_name"
+        | "enumerated_values_name"
+        | "enumerated_value_name"
+        | "dim_array_index_header_enum_name" => {
+            svd_encoder::IdentifierFormat::from_str(value).is_ok()
+        }
+        "peripheral_base_address"
+        | "address_block_offset"
+        | "address_block_size"
+        | "cluster_address_offset"
+        | "register_address_offset"
+        | "register_size"
+        | "register_reset_value"
+        | "register_reset_mask"
+        | "enumerated_value_value"
+        | "dim_dim"
+        | "dim_increment" => svd_encoder::NumberFormat::from_str(value).is_ok(),
+        "field_bit_range" => matches!(value, "BitRange" | "OffsetWidth" | "MsbLsb"),
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod test_utils;
-- 
2.43.0


From bf53988ea20083ad6c01ae83a034db74d3220ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 40/50] fix: keep the usage of values derived from those of a
 read-only or write-only field

---
 src/patch/register.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 23ccce2..880470c 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -978,6 +978,16 @@ impl RegisterExt for Register {
             } else {
                 make_ev_name(&fname.replace("%s", ""), usage)?
             };
+            let min_access = self
+                .fields()
+                .nth(*min_offset_pos)
+                .and_then(|f| f.access)
+                .or(reg_access)
+                .unwrap_or_default();
+            let min_usage = make_usage(
+                min_access,
+                check_usage(min_access, usage).with_context(|| format!("In field {fname}"))?,
+            );
             for ftag in self.iter_fields(fspec) {
                 let access = ftag.access.or(reg_access).unwrap_or_default();
                 let checked_usage = check_usage(access, usage)
@@ -989,19 +999,23 @@ impl RegisterExt for Register {
                     }
                     let evs = evs.build(VAL_LVL)?;
                     set_enum(ftag, evs, checked_usage, replace_if_exists, access)?;
-                } else if config.enum_derive == EnumAutoDerive::Field {
-                    ftag.modify_from(
-                        FieldInfo::builder().derived_from(Some(fname.into())),
-                        VAL_LVL,
-                    )?;
                 } else {
-                    set_enum(
-                        ftag,
-                        make_derived_enumerated_values(&name)?,
-                        checked_usage,
-                        true,
-                        access,
-                    )?;
+                    // The values of a read-only or write-only field have no usage,
+                    // so values of other fields derived from them need their own
+                    let own_usage = match min_usage {
+                        None => make_usage(access, checked_usage),
+                        Some(_) => None,
+                    };
+                    if config.enum_derive == EnumAutoDerive::Field && own_usage.is_none() {
+                        ftag.modify_from(
+                            FieldInfo::builder().derived_from(Some(fname.into())),
+                            VAL_LVL,
+                        )?;
+                    } else {
+                        let mut evs = make_derived_enumerated_values(&name)?;
+                        evs.usage = own_usage;
+                        set_enum(ftag, evs, checked_usage, true, access)?;
+                    }
                 }
             }
             // Move field with derived enums before other
-- 
2.43.0


From d4065080b67c63e148a29000c23809d02fef9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 41/50] fix: report rules ignored while merging on standard
 error, so that what expand-patch prints is a patch

---
 src/patch/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 9674b02..97834ed 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -238,7 +238,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                 if let Entry::Occupied(mut e) = parent.entry(key.clone()) {
                     match e.get_mut() {
                         el if el == val => {
-                            println!("In {key:?}: dublicate rule {val:?}, ignored");
+                            eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                         }
                         Yaml::Array(a) => match val {
                             Yaml::Array(val) => {
@@ -248,7 +248,7 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 if !a.contains(val) {
                                     a.push(val.clone());
                                 } else {
-                                    println!("In {key:?}: dublicate rule {val:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                                 }
                             }
                             _ => {}
@@ -262,12 +262,14 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 if !a.contains(s) {
                                     a.insert(0, s.clone());
                                 } else {
-                                    println!("In {key:?}: dublicate rule {s:?}, ignored");
+                                    eprintln!("In {key:?}: dublicate rule {s:?}, ignored");
                                 }
                                 e.insert(Yaml::Array(a));
                             }
                             s2 if matches!(s2, Yaml::String(_)) => {
-                                println!("In {key:?}: conflicting rules {s:?} and {s2:?}, ignored");
+                                eprintln!(
+                                    "In {key:?}: conflicting rules {s:?} and {s2:?}, ignored"
+                                );
                             }
                             _ => {}
                         },
-- 
2.43.0


From 902473ae64f68f28556af364fa60bc111a23283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 42/50] fix: refuse to merge fields that are not adjacent
 instead of making a field over other bits than theirs

---
 src/patch/register.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 880470c..7b10845 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -505,6 +505,7 @@ impl RegisterExt for Register {
             ));
         }
         if let Some(fields) = self.fields.as_mut() {
+            let mut ranges = Vec::new();
             let mut bitwidth = 0;
             let mut bitoffset = u32::MAX;
             let mut pos = usize::MAX;
@@ -522,8 +523,17 @@ impl RegisterExt for Register {
                     bitwidth += f.bit_range.width;
                     bitoffset = bitoffset.min(f.bit_range.offset);
                     pos = pos.min(i);
+                    ranges.push((f.bit_range.offset, f.bit_range.width));
                 }
             }
+            // The merged field has exactly the bits of its parts
+            ranges.sort_unstable();
+            if ranges.windows(2).any(|w| w[0].0 + w[0].1 != w[1].0) {
+                return Err(anyhow!(
+                    "Fields to merge are not adjacent {rpath}:{}",
+                    names.join(", ")
+                ));
+            }
             fields.retain(|f| !names.contains(&f.name));
             fields.insert(
                 pos,
-- 
2.43.0


From d612d0eb5c75a4e27cd66fbccf08f728451ef967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 43/50] fix: report unknown access, usage, endian and other
 words of a patch instead of ignoring them

---
 src/patch/mod.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 97834ed..1d3885d 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -328,10 +328,23 @@ fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
     None
 }
 
+/// Value of `key`, which is one of the words known to `parse`
+fn get_word<T>(h: &Hash, key: &str, parse: impl Fn(&str) -> Option<T>) -> Result<Option<T>> {
+    h.get_str(key)?.map_or(Ok(None), |s| to_word(s, key, parse))
+}
+
+/// The word `s` read by `parse`, nothing if it is empty
+fn to_word<T>(s: &str, key: &str, parse: impl Fn(&str) -> Option<T>) -> Result<Option<T>> {
+    match parse(s) {
+        None if !s.is_empty() => Err(anyhow!("Unknown {key} `{s}`")),
+        word => Ok(word),
+    }
+}
+
 fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -> PatchResult {
     match f {
         "size" => p.size = Some(val.u32()?),
-        "access" => p.access = Access::parse_str(val.str()?),
+        "access" => p.access = to_word(val.str()?, f, Access::parse_str)?,
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
         "protection" => {}
@@ -343,7 +356,7 @@ fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -
 fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
-        .access(h.get_str("access")?.and_then(Access::parse_str))
+        .access(get_word(h, "access", Access::parse_str)?)
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
@@ -429,7 +442,7 @@ fn make_address_block(h: &Hash) -> Result<AddressBlockBuilder> {
     if let Some(size) = h.get_u32("size")? {
         ab = ab.size(size)
     }
-    if let Some(usage) = h.get_str("usage")?.and_then(AddressBlockUsage::parse_str) {
+    if let Some(usage) = get_word(h, "usage", AddressBlockUsage::parse_str)? {
         ab = ab.usage(usage)
     }
     Ok(ab)
@@ -527,16 +540,26 @@ fn modify_dim_element<T: Clone>(
     Ok(())
 }
 
+/// A [`BitRange`] in the format `[<msb>:<lsb>]`
+fn parse_bit_range(text: &str) -> Option<BitRange> {
+    let (msb, lsb) = text.strip_prefix('[')?.strip_suffix(']')?.split_once(':')?;
+    let (msb, lsb) = (msb.parse::<u32>().ok()?, lsb.parse::<u32>().ok()?);
+    (msb >= lsb)
+        .then(|| BitRange::from_bit_range(text))
+        .flatten()
+}
+
 fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuilder> {
     let mut fnew = FieldInfo::builder()
         .description(opt_interpolate(&rpath, fadd.get_str("description")?))
         .derived_from(opt_interpolate(&rpath, fadd.get_str("derivedFrom")?))
-        .access(fadd.get_str("access")?.and_then(Access::parse_str))
-        .modified_write_values(
-            fadd.get_str("modifiedWriteValues")?
-                .and_then(ModifiedWriteValues::parse_str),
-        )
-        .read_action(fadd.get_str("readAction")?.and_then(ReadAction::parse_str))
+        .access(get_word(fadd, "access", Access::parse_str)?)
+        .modified_write_values(get_word(
+            fadd,
+            "modifiedWriteValues",
+            ModifiedWriteValues::parse_str,
+        )?)
+        .read_action(get_word(fadd, "readAction", ReadAction::parse_str)?)
         .write_constraint(get_write_constraint(fadd)?);
 
     if let Some(name) = fadd.get_str("name")? {
@@ -548,7 +571,7 @@ fn make_field(fadd: &Hash, rpath: Option<&RegisterPath>) -> Result<FieldInfoBuil
             return Err(anyhow!("msb {msb} is below lsb {lsb}"));
         }
         fnew = fnew.bit_range(BitRange::from_msb_lsb(msb, lsb));
-    } else if let Some(bit_range) = fadd.get_str("bitRange")?.and_then(BitRange::from_bit_range) {
+    } else if let Some(bit_range) = get_word(fadd, "bitRange", parse_bit_range)? {
         fnew = fnew.bit_range(bit_range);
     } else {
         if let Some(offset) = fadd.get_u32("bitOffset")? {
@@ -759,7 +782,7 @@ fn make_cpu(cmod: &Hash) -> Result<CpuBuilder> {
     if let Some(revision) = cmod.get_string("revision")? {
         cpu = cpu.revision(revision);
     }
-    if let Some(endian) = cmod.get_str("endian")?.and_then(Endian::parse_str) {
+    if let Some(endian) = get_word(cmod, "endian", Endian::parse_str)? {
         cpu = cpu.endian(endian);
     }
     if let Some(mpu_present) = cmod.get_bool("mpuPresent")? {
-- 
2.43.0


From 283bcc27e7bd6327a9558d78705d351a5ce8f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 44/50] fix: set the protection given by a patch instead of
 ignoring it

---
 src/patch/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 1d3885d..b956bcf 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -11,9 +11,9 @@ use svd_parser::svd::{
     addressblock::AddressBlockBuilder, interrupt::InterruptBuilder, Access, AddressBlock,
     AddressBlockUsage, ClusterInfo, ClusterInfoBuilder, Cpu, CpuBuilder, Endian, EnumeratedValue,
     EnumeratedValues, EnumeratedValuesBuilder, FieldInfo, FieldInfoBuilder, Interrupt,
-    ModifiedWriteValues, PeripheralInfo, PeripheralInfoBuilder, ReadAction, RegisterCluster,
-    RegisterInfo, RegisterInfoBuilder, RegisterProperties, Usage, ValidateLevel, WriteConstraint,
-    WriteConstraintRange,
+    ModifiedWriteValues, PeripheralInfo, PeripheralInfoBuilder, Protection, ReadAction,
+    RegisterCluster, RegisterInfo, RegisterInfoBuilder, RegisterProperties, Usage, ValidateLevel,
+    WriteConstraint, WriteConstraintRange,
 };
 use svd_parser::SVDError::DimIndexParse;
 use svd_rs::{BitRange, DimArrayIndex, DimElement, DimElementBuilder, MaybeArray};
@@ -347,7 +347,7 @@ fn modify_register_properties(p: &mut RegisterProperties, f: &str, val: &Yaml) -
         "access" => p.access = to_word(val.str()?, f, Access::parse_str)?,
         "resetValue" => p.reset_value = Some(val.i64()? as u64),
         "resetMask" => p.reset_mask = Some(val.i64()? as u64),
-        "protection" => {}
+        "protection" => p.protection = to_word(val.str()?, f, Protection::parse_str)?,
         _ => {}
     }
     Ok(())
@@ -357,6 +357,7 @@ fn get_register_properties(h: &Hash) -> Result<RegisterProperties> {
     Ok(RegisterProperties::new()
         .size(h.get_u32("size")?)
         .access(get_word(h, "access", Access::parse_str)?)
+        .protection(get_word(h, "protection", Protection::parse_str)?)
         .reset_value(h.get_u64("resetValue")?)
         .reset_mask(h.get_u64("resetMask")?))
 }
-- 
2.43.0


From df55cca061705febd0b92e72657dc71c2b0a60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:46 +0000
Subject: [PATCH 45/50] fix: copy what a peripheral takes from the one it is
 derived from, instead of making an empty peripheral

---
 src/patch/device.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index ef9587d..08297da 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -1,6 +1,7 @@
 use anyhow::{anyhow, Context};
 use itertools::Itertools;
 use svd_parser::svd::{Device, Peripheral, PeripheralInfo};
+use svd_rs::DeriveFrom;
 use yaml_rust::{yaml::Hash, Yaml};
 
 use std::collections::HashSet;
@@ -92,6 +93,21 @@ fn comes_from(device: &Device, name: &str, base: &str) -> bool {
     false
 }
 
+/// The peripheral `name` completed by what it is, maybe over several steps, derived from
+fn resolved_peripheral(device: &Device, name: &str) -> Option<Peripheral> {
+    let mut peripheral = device.get_peripheral(name)?.clone();
+    let mut seen = HashSet::from([name]);
+    let mut source = device.get_peripheral(name)?.derived_from.as_deref();
+    while let Some(base) = source
+        .filter(|name| seen.insert(name))
+        .and_then(|name| device.get_peripheral(name))
+    {
+        peripheral = peripheral.derive_from(base);
+        source = base.derived_from.as_deref();
+    }
+    Some(peripheral)
+}
+
 impl DeviceExt for Device {
     fn iter_peripherals<'a, 'b>(&'a mut self, spec: &'b str) -> PerMatchIterMut<'a, 'b> {
         self.peripherals.iter_mut().matched(spec)
@@ -223,22 +239,16 @@ impl DeviceExt for Device {
                 (&f).read_to_string(&mut contents).unwrap();
                 let filedev = svd_parser::parse(&contents)
                     .with_context(|| format!("Parsing file {contents}"))?;
-                filedev
-                    .get_peripheral(pcopyname)
-                    .ok_or_else(|| {
-                        let present = self.present_peripherals();
-                        anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
-                    })?
-                    .clone()
+                resolved_peripheral(&filedev, pcopyname).ok_or_else(|| {
+                    let present = self.present_peripherals();
+                    anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
+                })?
             }
             [pcopyname] => {
-                let mut new = self
-                    .get_peripheral(pcopyname)
-                    .ok_or_else(|| {
-                        let present = self.present_peripherals();
-                        anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
-                    })?
-                    .clone();
+                let mut new = resolved_peripheral(self, pcopyname).ok_or_else(|| {
+                    let present = self.present_peripherals();
+                    anyhow!("peripheral {pcopyname} not found. Present peripherals: {present}.")
+                })?;
                 // When copying from a peripheral in the same file, remove any interrupts.
                 new.interrupt = Vec::new();
                 new
-- 
2.43.0


From 4c067e7a65ff0834a49f2c08aa000888dd616c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 46/50] fix: report sections, ranges and address blocks of a
 wrong kind instead of ignoring them

---
 src/patch/device.rs     | 14 +++++++-------
 src/patch/mod.rs        |  4 ++--
 src/patch/peripheral.rs | 32 ++++++++++++++++----------------
 src/patch/register.rs   | 19 +++++++++++++------
 src/patch/yaml_ext.rs   |  8 ++++++--
 5 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/patch/device.rs b/src/patch/device.rs
index 08297da..ad8e1a4 100644
--- a/src/patch/device.rs
+++ b/src/patch/device.rs
@@ -125,7 +125,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any copied peripherals
-        for (pname, val) in device.hash_iter("_copy") {
+        for (pname, val) in device.hash_iter("_copy")? {
             let pname = pname.str()?;
             self.copy_peripheral(
                 pname,
@@ -136,7 +136,7 @@ impl DeviceExt for Device {
         }
 
         // Handle any modifications
-        for (key, val) in device.hash_iter("_modify") {
+        for (key, val) in device.hash_iter("_modify")? {
             let key = key.str()?;
             match key {
                 "cpu" => self
@@ -182,21 +182,21 @@ impl DeviceExt for Device {
         }
 
         // Handle any new peripherals (!)
-        for (pname, padd) in device.hash_iter("_add") {
+        for (pname, padd) in device.hash_iter("_add")? {
             let pname = pname.str()?;
             self.add_peripheral(pname, padd.hash()?)
                 .with_context(|| format!("Adding peripheral `{pname}`"))?;
         }
 
         // Handle any derived peripherals
-        for (pname, pderive) in device.hash_iter("_derive") {
+        for (pname, pderive) in device.hash_iter("_derive")? {
             let pname = pname.str()?;
             self.derive_peripheral(pname, pderive)
                 .with_context(|| format!("Deriving peripheral `{pname}` from `{pderive:?}`"))?;
         }
 
         // Handle any rebased peripherals
-        for (pname, pold) in device.hash_iter("_rebase") {
+        for (pname, pold) in device.hash_iter("_rebase")? {
             let pname = pname.str()?;
             let pold = pold.str()?;
             self.rebase_peripheral(pname, pold)
@@ -300,14 +300,14 @@ impl DeviceExt for Device {
                         }
                     }
                 }
-                if let Some(abmod) = pmod.get_hash("addressBlock").ok().flatten() {
+                if let Some(abmod) = pmod.get_hash("addressBlock")? {
                     let v = &mut ptag.address_block;
                     let ab = make_address_block(abmod)?;
                     match v.as_deref_mut() {
                         Some([adb]) => adb.modify_from(ab, VAL_LVL)?,
                         _ => *v = Some(vec![ab.build(VAL_LVL)?]),
                     }
-                } else if let Some(abmod) = pmod.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(abmod) = pmod.get_vec("addressBlocks")? {
                     ptag.address_block = Some(make_address_blocks(abmod)?);
                 }
             }
diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index b956bcf..0c89a62 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -733,9 +733,9 @@ fn make_peripheral(padd: &Hash, modify: bool) -> Result<PeripheralInfoBuilder> {
         Ok(pnew
             .default_register_properties(get_register_properties(padd)?)
             .address_block(if !modify {
-                if let Some(h) = padd.get_hash("addressBlock").ok().flatten() {
+                if let Some(h) = padd.get_hash("addressBlock")? {
                     Some(vec![make_address_block(h)?.build(VAL_LVL)?])
-                } else if let Some(h) = padd.get_vec("addressBlocks").ok().flatten() {
+                } else if let Some(h) = padd.get_vec("addressBlocks")? {
                     Some(make_address_blocks(h)?)
                 } else {
                     None
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index a28a2a7..67aec66 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -1133,7 +1133,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle any copied peripherals
-        for (rname, rcopy) in pmod.hash_iter("_copy") {
+        for (rname, rcopy) in pmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1181,7 +1181,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle modifications
-        for (rspec, rmod) in pmod.hash_iter("_modify") {
+        for (rspec, rmod) in pmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1220,7 +1220,7 @@ impl PeripheralExt for Peripheral {
         }
 
         // Handle additions
-        for (rname, radd) in pmod.hash_iter("_add") {
+        for (rname, radd) in pmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1250,7 +1250,7 @@ impl PeripheralExt for Peripheral {
             }
         }
 
-        for (rspec, rderive) in pmod.hash_iter("_derive") {
+        for (rspec, rderive) in pmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1289,27 +1289,27 @@ impl PeripheralExt for Peripheral {
         }
 
         // Expand register arrays
-        for (rspec, rmod) in pmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in pmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
         // Collect registers in arrays
-        for (rspec, rmod) in pmod.hash_iter("_array") {
+        for (rspec, rmod) in pmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, cmod) in pmod.hash_iter("_cluster") {
+        for (cname, cmod) in pmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, cmod.hash()?, &ppath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
         }
 
         // Handle clusters
-        for (cspec, cluster) in pmod.hash_iter("_clusters") {
+        for (cspec, cluster) in pmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &ppath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1450,7 +1450,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle any copied peripherals
-        for (rname, rcopy) in cmod.hash_iter("_copy") {
+        for (rname, rcopy) in cmod.hash_iter("_copy")? {
             let rname = rname.str()?;
             match rname {
                 "_registers" => {
@@ -1498,7 +1498,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle modifications
-        for (rspec, rmod) in cmod.hash_iter("_modify") {
+        for (rspec, rmod) in cmod.hash_iter("_modify")? {
             let rmod = rmod.hash()?;
             match rspec.str()? {
                 "_registers" => {
@@ -1529,7 +1529,7 @@ impl ClusterExt for Cluster {
         }
 
         // Handle additions
-        for (rname, radd) in cmod.hash_iter("_add") {
+        for (rname, radd) in cmod.hash_iter("_add")? {
             let radd = radd.hash()?;
             match rname.str()? {
                 "_registers" => {
@@ -1552,7 +1552,7 @@ impl ClusterExt for Cluster {
             }
         }
 
-        for (rspec, rderive) in cmod.hash_iter("_derive") {
+        for (rspec, rderive) in cmod.hash_iter("_derive")? {
             let rspec = rspec.str()?;
             match rspec {
                 "_registers" => {
@@ -1589,7 +1589,7 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Handle clusters
-        for (cspec, cluster) in cmod.hash_iter("_clusters") {
+        for (cspec, cluster) in cmod.hash_iter("_clusters")? {
             let cspec = cspec.str()?;
             self.process_cluster(cspec, cluster.hash()?, &cpath, config)
                 .with_context(|| format!("According to `{cspec}`"))?;
@@ -1612,21 +1612,21 @@ impl ClusterExt for Cluster {
         let cpath = parent.new_cluster(&self.name);
 
         // Expand register arrays
-        for (rspec, rmod) in cmod.hash_iter("_expand_array") {
+        for (rspec, rmod) in cmod.hash_iter("_expand_array")? {
             let rspec = rspec.str()?;
             self.expand_array(rspec, rmod.hash()?, config)
                 .with_context(|| format!("During expand of `{rspec}` array"))?;
         }
 
         // Collect registers in arrays
-        for (rspec, rmod) in cmod.hash_iter("_array") {
+        for (rspec, rmod) in cmod.hash_iter("_array")? {
             let rspec = rspec.str()?;
             self.collect_in_array(rspec, rmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers matched to `{rspec}` in array"))?;
         }
 
         // Collect registers in clusters
-        for (cname, incmod) in cmod.hash_iter("_cluster") {
+        for (cname, incmod) in cmod.hash_iter("_cluster")? {
             let cname = cname.str()?;
             self.collect_in_cluster(cname, incmod.hash()?, &cpath, config)
                 .with_context(|| format!("Collecting registers in cluster `{cname}`"))?;
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 7b10845..5054c4c 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -208,19 +208,19 @@ impl RegisterExt for Register {
         }
 
         // Handle modifications
-        for (fspec, fmod) in rmod.hash_iter("_modify") {
+        for (fspec, fmod) in rmod.hash_iter("_modify")? {
             let fspec = fspec.str()?;
             self.modify_field(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Modifying fields matched to `{fspec}`"))?;
         }
         // Handle additions
-        for (fname, fadd) in rmod.hash_iter("_add") {
+        for (fname, fadd) in rmod.hash_iter("_add")? {
             let fname = fname.str()?;
             self.add_field(fname, fadd.hash()?, &rpath)
                 .with_context(|| format!("Adding field `{fname}`"))?;
         }
         // Handle derives
-        for (fspec, fderive) in rmod.hash_iter("_derive") {
+        for (fspec, fderive) in rmod.hash_iter("_derive")? {
             let fspec = fspec.str()?;
             self.derive_field(fspec, fderive, &rpath)
                 .with_context(|| format!("Deriving field `{fspec}` from `{fderive:?}`"))?;
@@ -246,7 +246,8 @@ impl RegisterExt for Register {
                 self.merge_fields(fspec, None, &rpath)
                     .with_context(|| format!("Merging fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            Some(_) => return Err(anyhow!("`_merge` requires a map, an array or a string")),
         }
 
         // Handle splits
@@ -269,7 +270,8 @@ impl RegisterExt for Register {
                 self.split_fields(fspec, &Hash::new(), &rpath)
                     .with_context(|| format!("Splitting fields matched to `{fspec}`"))?;
             }
-            _ => {}
+            None | Some(Yaml::Null) => {}
+            Some(_) => return Err(anyhow!("`_split` requires a map, an array or a string")),
         }
 
         // Handle fields
@@ -285,7 +287,7 @@ impl RegisterExt for Register {
         }
 
         // Handle field arrays
-        for (fspec, fmod) in rmod.hash_iter("_array") {
+        for (fspec, fmod) in rmod.hash_iter("_array")? {
             let fspec = fspec.str()?;
             self.collect_fields_in_array(fspec, fmod.hash()?, &rpath)
                 .with_context(|| format!("Collecting fields matched to `{fspec}` in array"))?;
@@ -784,6 +786,11 @@ impl RegisterExt for Register {
                 self.process_field_range(fspec, fmod, rpath)
                     .context("Adding writeConstraint range")?;
             }
+            Yaml::Array(_) => {
+                return Err(anyhow!(
+                    "A range requires a minimum and a maximum: {fmod:?}"
+                ))
+            }
             _ => {}
         }
         Ok(())
diff --git a/src/patch/yaml_ext.rs b/src/patch/yaml_ext.rs
index ec25745..9ef0620 100644
--- a/src/patch/yaml_ext.rs
+++ b/src/patch/yaml_ext.rs
@@ -210,8 +210,12 @@ where
                 .map(Some),
         }
     }
-    fn hash_iter<'a>(&'a self, k: &K) -> HashIter<'a> {
-        HashIter::new(self.get_yaml(k).and_then(Yaml::as_hash).map(|h| h.iter()))
+    fn hash_iter<'a>(&'a self, k: &K) -> Result<HashIter<'a>> {
+        Ok(HashIter::new(match self.get_yaml(k) {
+            // A section without contents
+            Some(Yaml::Null) => None,
+            _ => self.get_hash(k)?.map(|h| h.iter()),
+        }))
     }
     fn get_vec(&self, k: &K) -> Result<Option<&Vec<Yaml>>> {
         match self.get_yaml(k) {
-- 
2.43.0


From 5abb3c11632aad5252531f09e08a563fc9b9b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 47/50] fix: apply all of the read rules of a field instead of
 one of them

---
 src/patch/register.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/patch/register.rs b/src/patch/register.rs
index 5054c4c..296e33e 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -757,7 +757,6 @@ impl RegisterExt for Register {
                                 if let Some(action) = action {
                                     self.set_field_read_action(fspec, *action, rpath)?;
                                 }
-                                break;
                             }
                         }
                     }
-- 
2.43.0


From 61ab0e79d49a28593b801f442cccce1d3251f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 48/50] fix: take rules marked as optional the same as those
 that are not, wherever they find elements

---
 src/patch/mod.rs        | 1 +
 src/patch/peripheral.rs | 3 ++-
 src/patch/register.rs   | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 0c89a62..f87fcb5 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -312,6 +312,7 @@ fn matched_suffix(name: &str, glob: &globset::GlobMatcher) -> Option<usize> {
 
 /// If a name matches a specification, return the first sub-specification that it matches
 fn matchsubspec<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
+    let (spec, _) = spec.spec();
     if spec.contains('{') {
         let glob = newglob(spec);
         if glob.is_match(name) {
diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 67aec66..8412e8b 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -898,6 +898,7 @@ pub(crate) trait RegisterBlockExt: Name {
 
     /// Expand register array
     fn expand_array(&mut self, rspec: &str, _rmod: &Hash, _config: &Config) -> PatchResult {
+        let (rspec, ignore) = rspec.spec();
         if let Some(regs) = self.children_mut() {
             let mut found = false;
             for rc in std::mem::take(regs) {
@@ -919,7 +920,7 @@ pub(crate) trait RegisterBlockExt: Name {
                     rc => regs.push(rc),
                 }
             }
-            if !found {
+            if !found && !ignore {
                 Err(anyhow!("Register {rspec} not found"))
             } else {
                 Ok(())
diff --git a/src/patch/register.rs b/src/patch/register.rs
index 296e33e..efe77dc 100644
--- a/src/patch/register.rs
+++ b/src/patch/register.rs
@@ -474,6 +474,7 @@ impl RegisterExt for Register {
         value: Option<&Yaml>,
         rpath: &RegisterPath,
     ) -> PatchResult {
+        let (key, ignore) = key.spec();
         let (name, names) = match value {
             Some(Yaml::String(value)) => (
                 key.to_string(),
@@ -501,6 +502,9 @@ impl RegisterExt for Register {
         };
 
         if names.is_empty() {
+            if ignore {
+                return Ok(());
+            }
             let present = self.present_fields();
             return Err(anyhow!(
                 "Could not find any fields to merge {rpath}:{key}. Present fields: {present}.`"
-- 
2.43.0


From b480300fbc6402930425333b992e72c57e1610ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 49/50] fix: keep the properties that the contents of an
 expanded cluster take from it

---
 src/patch/peripheral.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/patch/peripheral.rs b/src/patch/peripheral.rs
index 8412e8b..768f316 100644
--- a/src/patch/peripheral.rs
+++ b/src/patch/peripheral.rs
@@ -6,6 +6,7 @@ use svd_parser::svd::{
     self, Cluster, ClusterInfo, DimElement, Interrupt, Peripheral, Register, RegisterCluster,
     RegisterInfo,
 };
+use svd_rs::DeriveFrom;
 use yaml_rust::{yaml::Hash, Yaml};
 
 use super::iterators::{MatchIter, Matched};
@@ -745,7 +746,19 @@ pub(crate) trait RegisterBlockExt: Name {
                         zeroindex,
                         noprefix,
                     )?;
-                    for reg in cluster_registers.clone() {
+                    for mut reg in cluster_registers.clone() {
+                        // what the contents took from the cluster
+                        let inherited = &ctag.default_register_properties;
+                        match &mut reg {
+                            RegisterCluster::Register(r) if r.derived_from.is_none() => {
+                                r.properties = r.properties.derive_from(inherited);
+                            }
+                            RegisterCluster::Cluster(c) if c.derived_from.is_none() => {
+                                c.default_register_properties =
+                                    c.default_register_properties.derive_from(inherited);
+                            }
+                            _ => {}
+                        }
                         let reg = match reg {
                             RegisterCluster::Register(mut register) => {
                                 register.address_offset += cluster_offset;
-- 
2.43.0


From 9fb1012a2e8c066bec53dc4e901d1effd089dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 50/50] fix: report every rule that is ignored while merging
 files, not only texts

---
 src/patch/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f87fcb5..4564602 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -251,7 +251,11 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                     eprintln!("In {key:?}: dublicate rule {val:?}, ignored");
                                 }
                             }
-                            _ => {}
+                            _ => {
+                                eprintln!(
+                                    "In {key:?}: conflicting rules {a:?} and {val:?}, ignored"
+                                );
+                            }
                         },
                         Yaml::Hash(h) => {
                             update_dict(h, val.hash()?)?;
@@ -266,14 +270,15 @@ fn update_dict(parent: &mut Hash, child: &Hash) -> Result<()> {
                                 }
                                 e.insert(Yaml::Array(a));
                             }
-                            s2 if matches!(s2, Yaml::String(_)) => {
+                            s2 => {
                                 eprintln!(
                                     "In {key:?}: conflicting rules {s:?} and {s2:?}, ignored"
                                 );
                             }
-                            _ => {}
                         },
-                        _ => {}
+                        el => {
+                            eprintln!("In {key:?}: conflicting rules {el:?} and {val:?}, ignored");
+                        }
                     }
                 }
             }
-- 
2.43.0

