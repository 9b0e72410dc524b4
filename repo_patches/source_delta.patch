From 6291bbc4f2c298360329651d0fabb27d5fd1fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 01/92] fix: reversed comparison of cached items reversed twice
 when the caches tie

---
 src/comp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index ebe1cfa..8c65158 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -247,7 +247,8 @@ impl LineComp {
         } else if left.complete() && right.complete() {
             Ordering::Equal
         } else {
-            self.comp_lines(left.get(base), right.get(base))
+            self.comp
+                .comp_lines(left.get(base), right.get(base), self.delim, 0, 0)
         };
         self.reverse(x)
     }
-- 
2.43.0


From 56734b81f53edf24e7af111cbe24003365a23751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 02/92] fix: whole-line comparison cached the start of the
 buffer instead of the line

---
 src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8c65158..8935486 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -445,7 +445,7 @@ impl LineCompare for LineCompWhole {
     }
 
     fn fill_cache_line(&mut self, item: &mut Item, value: &[u8], _delim: u8) {
-        self.comp.fill_cache(item, value);
+        self.comp.fill_cache(item, item.get(value));
     }
 
     fn set(&mut self, value: &[u8]) {
-- 
2.43.0


From 148e22858b97e1f9ab12fb711d3587eb7334254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 03/92] fix: cached comparison treated values differing only in
 trailing NULs as equal

---
 src/comp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 8935486..cbb7fd4 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -625,6 +625,11 @@ fn make_array(val: &[u8]) -> [u8; 8] {
     }
     res
 }
+/// does the result of `make_array` fully determine the value?
+/// A value ending in NUL is indistinguishable from the shorter value padded with zeros.
+fn fits_cache(val: &[u8]) -> bool {
+    val.len() <= 8 && val.last() != Some(&0)
+}
 /*
 fn make_array(val: &[u8]) -> [u8; 8] {
     let mut result = [0; 8];
@@ -1588,7 +1593,7 @@ impl Compare for ComparePlain {
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = u64::from_be_bytes(make_array(value));
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
@@ -1614,7 +1619,7 @@ impl Compare for CompareLower {
             x.make_ascii_lowercase();
         }
         item.cache = u64::from_be_bytes(aa);
-        item.assign_complete(value.len() <= 8);
+        item.assign_complete(fits_cache(value));
     }
     fn set(&mut self, value: &[u8]) {
         value.assign_lower(&mut self.value);
-- 
2.43.0


From 77743db18e71131a3303c94519c3ef31999ef65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 04/92] fix: cached numeric comparison disagreed with the
 numeric comparison

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index cbb7fd4..19a81e8 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1661,8 +1661,10 @@ impl Compare for CompareNumeric {
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
         num_cmp_signed(left, right) == Ordering::Equal
     }
-    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+    fn fill_cache(&self, item: &mut Item, _value: &[u8]) {
+        // the floating point value disagrees with num_cmp_signed, e.g. for "1,000" or "1K"
+        item.cache = 0;
+        item.clear_complete();
     }
     fn set(&mut self, value: &[u8]) {
         self.value = value.to_vec();
-- 
2.43.0


From e2cd1715f9fd3366b619a40193ff5ac0494ccebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 05/92] fix: numeric comparison ignored a fraction present on
 only one side

---
 src/comp.rs | 79 ++++++++++++++++++++---------------------------------
 1 file changed, 30 insertions(+), 49 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 19a81e8..738c18c 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -653,40 +653,34 @@ fn skip_comma(mut a: &[u8]) -> &[u8] {
     a
 }
 
-fn frac_cmp(mut a: &[u8], mut b: &[u8]) -> Ordering {
-    debug_assert!(!a.is_empty());
-    debug_assert!(!b.is_empty());
-    debug_assert!(a[0] == b'.');
-    debug_assert!(b[0] == b'.');
-    a = &a[1..];
-    b = &b[1..];
-    while !a.is_empty() && !b.is_empty() && (a[0] == b[0]) && a[0].is_ascii_digit() {
+/// compare the fractional parts, if any, by value
+fn frac_cmp(a: &[u8], b: &[u8]) -> Ordering {
+    let mut a = frac_digits(a);
+    let mut b = frac_digits(b);
+    while !a.is_empty() && !b.is_empty() && a[0] == b[0] {
         a = &a[1..];
         b = &b[1..];
     }
-    if a.is_empty() {
-        if b.is_empty() || !b[0].is_ascii_digit() {
-            Ordering::Equal
-        } else {
-            Ordering::Less
-        }
-    } else if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            Ordering::Greater
-        } else {
-            Ordering::Equal
-        }
-    } else if a[0].is_ascii_digit() {
-        if b[0].is_ascii_digit() {
-            a[0].cmp(&b[0])
-        } else {
-            Ordering::Greater
-        }
-    } else if b[0].is_ascii_digit() {
-        Ordering::Less
-    } else {
-        Ordering::Equal
+    // first remaining digit decides, missing digits are zero
+    let a_first = a.first().copied().unwrap_or(b'0');
+    let b_first = b.first().copied().unwrap_or(b'0');
+    if a_first != b_first {
+        return a_first.cmp(&b_first);
     }
+    let nonzero = |x: &[u8]| x.iter().any(|ch| *ch != b'0');
+    nonzero(a).cmp(&nonzero(b))
+}
+
+/// if data starts with a decimal point, return the digits that follow, else nothing
+fn frac_digits(data: &[u8]) -> &[u8] {
+    if data.is_empty() || data[0] != b'.' {
+        return &data[..0];
+    }
+    let mut len = 1;
+    while len < data.len() && data[len].is_ascii_digit() {
+        len += 1;
+    }
+    &data[1..len]
 }
 
 fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
@@ -698,24 +692,14 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
         a = skip_comma(a);
         b = skip_comma(b);
     }
-    if a.is_empty() && b.is_empty() {
-        return Ordering::Equal;
-    }
-    if a.is_empty() {
-        if b[0].is_ascii_digit() {
-            return Ordering::Less;
-        }
-        return Ordering::Equal;
-    }
-    if b.is_empty() {
-        if a[0].is_ascii_digit() {
-            return Ordering::Greater;
-        }
-        return Ordering::Equal;
-    }
-    if a[0] == b'.' && b[0] == b'.' {
+    let a_digit = !a.is_empty() && a[0].is_ascii_digit();
+    let b_digit = !b.is_empty() && b[0].is_ascii_digit();
+    if !a_digit && !b_digit {
         return frac_cmp(a, b);
     }
+    if !a_digit || !b_digit {
+        return a_digit.cmp(&b_digit);
+    }
     let tmp = a[0].cmp(&b[0]);
 
     let mut log_a = 0;
@@ -735,9 +719,6 @@ fn num_cmp_unsigned(mut a: &[u8], mut b: &[u8]) -> Ordering {
     if log_a != log_b {
         return log_a.cmp(&log_b);
     }
-    if log_a == 0 {
-        return Ordering::Equal;
-    }
     tmp
 }
 
-- 
2.43.0


From f9862ad4a533c7a8fad2a39e372f857591ca0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 06/92] fix: modifier 'rev' was ignored when comparing single
 values

---
 src/comp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 738c18c..19657e1 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -153,14 +153,14 @@ impl Comp {
             junk: c.junk,
             pattern: c.pattern.clone(),
             ctype: c.ctype.clone(),
-            reverse: c.reverse,
+            reverse: false, // handled by the LineComp
             comp: Box::new(ComparePlain::new()),
         }
     }
     /// Compare two slices, usually column values
     #[must_use]
     pub fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        self.comp.comp(left, right)
+        self.reverse(self.comp.comp(left, right))
     }
     /// Compare two slices for equality
     #[must_use]
@@ -178,7 +178,15 @@ impl Comp {
     /// Compare self to slice
     #[must_use]
     pub fn comp_self(&self, right: &[u8]) -> Ordering {
-        self.comp.comp_self(right)
+        self.reverse(self.comp.comp_self(right))
+    }
+    /// reverse the ordering if self.reverse is set
+    const fn reverse(&self, x: Ordering) -> Ordering {
+        if self.reverse {
+            x.reverse()
+        } else {
+            x
+        }
     }
     /// Compare self to slice for equality
     #[must_use]
-- 
2.43.0


From c1cb48cae95577297854ce505a0534d458118a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:33 +0000
Subject: [PATCH 07/92] fix: floating point ordering was inconsistent for NaN
 and negative zero

---
 src/comp.rs | 12 ++++++------
 src/num.rs  | 11 ++++++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 19657e1..1534ee7 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -1691,7 +1691,7 @@ impl Compare for Comparef64 {
         fcmp(left.to_f64_lossy(), right.to_f64_lossy())
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        left.to_f64_lossy() == right.to_f64_lossy()
+        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
         item.cache = ulp_to_ulong(value.to_f64_lossy());
@@ -1704,7 +1704,7 @@ impl Compare for Comparef64 {
         fcmp(self.value, right.to_f64_lossy())
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        self.value == right.to_f64_lossy()
+        fcmp(self.value, right.to_f64_lossy()) == Ordering::Equal
     }
 }
 
@@ -1866,7 +1866,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval(left);
         let right_val = self.exprs[right_file].eval(right);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn comp_lines(
         &mut self,
@@ -1890,7 +1890,7 @@ impl LineCompare for LineCompExpr {
     ) -> bool {
         let left_val = self.exprs[left_file].eval_line(left, delim);
         let right_val = self.exprs[right_file].eval_line(right, delim);
-        left_val == right_val
+        fcmp(left_val, right_val) == Ordering::Equal
     }
     fn lookup(&mut self, fieldnames: &[&str], file_num: usize) -> Result<()> {
         while self.exprs.len() < (file_num + 1) {
@@ -1917,7 +1917,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
         let value = self.exprs[0].eval(right);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
     fn comp_self_line(&mut self, right: &[u8], delim: u8) -> Ordering {
         let value = self.exprs[0].eval_line(right, delim);
@@ -1925,7 +1925,7 @@ impl LineCompare for LineCompExpr {
     }
     fn equal_self_line(&mut self, right: &[u8], delim: u8) -> bool {
         let value = self.exprs[0].eval_line(right, delim);
-        self.value == value
+        fcmp(self.value, value) == Ordering::Equal
     }
 }
 
diff --git a/src/num.rs b/src/num.rs
index 24ad3e4..e04a816 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -110,12 +110,21 @@ pub fn fcmp(x: f64, y: f64) -> Ordering {
     if x > y {
         return Ordering::Greater;
     }
-    Ordering::Less
+    if x < y {
+        return Ordering::Less;
+    }
+    // NaN equals itself, and is greater than anything else
+    x.is_nan().cmp(&y.is_nan())
 }
 
 /// convert an f64 to a similarly ordered u64
 #[must_use]
 pub fn ulp_to_ulong(d: f64) -> u64 {
+    if d.is_nan() {
+        return u64::MAX;
+    }
+    // don't distinguish the two zeros
+    let d = if d == 0.0 { 0.0 } else { d };
     let x = u64::from_ne_bytes(d.to_ne_bytes());
     if (x & 0x8000_0000_0000_0000_u64) != 0 {
         x ^ 0xffff_ffff_ffff_ffff_u64
-- 
2.43.0


From 1c12db887ffad8533d84440441a356075cefa0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:00 +0000
Subject: [PATCH 08/92] fix: sort lost data or failed when the buffer was full
 at a file boundary

---
 src/sort.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/sort.rs b/src/sort.rs
index 5a3a592..ced9ed6 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -390,9 +390,26 @@ impl Sorter {
         }
     }
 
+    // ensure that N more bytes will fit, by writing complete lines to a temporary file
+    // or if a single line is that long, by growing the buffer
+    fn make_room(&mut self, n: usize) -> Result<()> {
+        if self.data.capacity() - self.data_used < n {
+            self.calc();
+            if !self.ptrs.is_empty() {
+                self.do_sort();
+                self.write_tmp()?;
+            }
+            if self.data.capacity() - self.data_used < n {
+                self.data.reserve(self.data_used + n - self.data.len());
+            }
+        }
+        Ok(())
+    }
+
     /// add some more data to be sorted.
     /// must be integer number of lines.
     pub fn add_data(&mut self, in_data: &[u8]) -> Result<()> {
+        self.make_room(in_data.len())?;
         let sz = self.prepare(in_data.len());
         if sz != in_data.len() {
             eprintln!("Failed to prepare {}, only got {}", in_data.len(), sz);
@@ -409,6 +426,7 @@ impl Sorter {
         loop {
             debug_assert!(self.check());
             const SIZE: usize = 16 * 1024;
+            self.make_room(1)?;
             let sz = self.prepare(SIZE);
             debug_assert!(sz > 0);
             let nbytes = r.read(&mut self.data[self.data_used..self.data_used + sz])?;
@@ -456,7 +474,7 @@ impl Sorter {
         }
         self.tmp_files.push(tmp_name.to_string());
         self.ptrs.clear();
-        let nsize = self.data.len() - self.data_calc;
+        let nsize = self.data_used - self.data_calc;
         for i in 0..nsize {
             self.data[i] = self.data[self.data_calc + i];
         }
-- 
2.43.0


From 9d377f1d568717bd88224df1b1418366f6a7d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:09 +0000
Subject: [PATCH 09/92] fix: merge did not resolve key columns by name

---
 src/sort.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/sort.rs b/src/sort.rs
index ced9ed6..a7fa0c5 100644
--- a/src/sort.rs
+++ b/src/sort.rs
@@ -52,20 +52,51 @@ impl SortConfig {
     ) -> Result<()> {
         eprintln!("Merging");
         if self.alt_merge {
-            self.merge_t1(in_files, cmp, w, unique, tmp)
+            self.merge_tree(in_files, cmp, w, unique, tmp, false)
         } else {
-            self.merge_t2(in_files, cmp, w, unique, tmp)
+            self.merge_heap(in_files, cmp, w, unique, tmp, false)
         }
     }
 
+    /// write the header, if any, and possibly resolve named columns
+    fn merge_header(
+        files: &[Reader],
+        cmp: &mut LineCompList,
+        mut w: impl Write,
+        lookup: bool,
+    ) -> Result<()> {
+        // FIXME -- Check Header
+        if let Some(f) = files.iter().find(|f| !f.is_empty()) {
+            if lookup {
+                cmp.lookup(&f.names())?;
+            }
+            if f.has_header() {
+                w.write_all(f.header().line.as_bytes())?;
+            }
+        }
+        Ok(())
+    }
+
     /// merge all the files into w, using tmp
     pub fn merge_t2(
+        &self,
+        in_files: &[String],
+        cmp: &mut LineCompList,
+        w: impl Write,
+        unique: bool,
+        tmp: &TempDir,
+    ) -> Result<()> {
+        self.merge_heap(in_files, cmp, w, unique, tmp, true)
+    }
+
+    fn merge_heap(
         &self,
         in_files: &[String],
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
         _tmp: &TempDir,
+        lookup: bool,
     ) -> Result<()> {
         if in_files.is_empty() {
             return Ok(());
@@ -89,10 +120,8 @@ impl SortConfig {
                     x.do_split(false);
                 }
             }
-            // FIXME -- Check Header
-            if mcm.open[0].has_header() {
-                w.write_all(mcm.open[0].header().line.as_bytes())?;
-            }
+            let MergeContext { open, cmp } = &mut *mcm;
+            Self::merge_header(open, cmp, &mut w, lookup)?;
         }
         for i in 0..in_files.len() {
             if !mc.borrow().open[i].is_done() {
@@ -138,12 +167,24 @@ impl SortConfig {
 
     /// merge all the files into w, using tmp
     pub fn merge_t1(
+        &self,
+        in_files: &[String],
+        cmp: &mut LineCompList,
+        w: impl Write,
+        unique: bool,
+        tmp: &TempDir,
+    ) -> Result<()> {
+        self.merge_tree(in_files, cmp, w, unique, tmp, true)
+    }
+
+    fn merge_tree(
         &self,
         in_files: &[String],
         cmp: &mut LineCompList,
         mut w: impl Write,
         unique: bool,
         _tmp: &TempDir,
+        lookup: bool,
     ) -> Result<()> {
         if in_files.is_empty() {
             return Ok(());
@@ -161,10 +202,7 @@ impl SortConfig {
                 x.do_split(false);
             }
         }
-        // FIXME -- Check Header
-        if open_files[0].has_header() {
-            w.write_all(open_files[0].header().line.as_bytes())?;
-        }
+        Self::merge_header(&open_files, cmp, &mut w, lookup)?;
 
         let nums: Vec<usize> = (0..open_files.len()).collect();
         let mut mm = MergeTreeItem::new_tree(&nums);
-- 
2.43.0


From fc7f4ad496a61e698d65e9ff61b88fed97431ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:11 +0000
Subject: [PATCH 10/92] fix: join wrote an invented header to the
 unmatched-lines file

---
 src/join.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/join.rs b/src/join.rs
index c7f9a94..117ec59 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -190,7 +190,9 @@ impl Joiner {
             let num = x.file_num - 1;
             if self.no_match[num].is_none() {
                 let mut w = get_writer(&x.file_name)?;
-                self.r[num].write_header(&mut *w)?;
+                if self.r[num].has_header() {
+                    self.r[num].write_header(&mut *w)?;
+                }
                 self.no_match[num] = Some(w);
             } else {
                 return err!("Multiple uses of --also for file {}", x.file_num);
-- 
2.43.0


From e9e23d17c1e8fa5b547931afd56d256329acdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:49 +0000
Subject: [PATCH 11/92] fix: binary search looped forever on empty lines and
 read past an unterminated last line

---
 src/binsearch.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index e34e486..cd3acee 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -88,12 +88,9 @@ pub const fn find_end(data: &[u8], mut start: usize) -> usize {
 /// that is, starting in the middle of a line, find the start of it
 #[must_use]
 pub const fn find_start(data: &[u8], mut start: usize) -> usize {
-    while (start > 0) && (data[start] != b'\n') {
+    while (start > 0) && (data[start - 1] != b'\n') {
         start -= 1;
     }
-    if data[start] == b'\n' {
-        start += 1;
-    }
     start
 }
 
@@ -104,10 +101,7 @@ pub const fn find_prev(data: &[u8], start: usize) -> usize {
     if start <= 1 {
         return 0;
     }
-    if data[start - 1] != b'\n' {
-        return find_start(data, start);
-    }
-    find_start(data, start - 2)
+    find_start(data, start - 1)
 }
 
 /// return first line that matches (with newline) or empty slice if none
-- 
2.43.0


From 1422d8081d44101aca53c7f243cfa13b5389c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:49 +0000
Subject: [PATCH 12/92] fix: binary search treated the header as a line of data

---
 src/bin/cdx/binsearch_main.rs | 12 ++++++------
 src/binsearch.rs              |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 7faf54e..4b0c734 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -156,26 +156,26 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(&not_header)?;
         }
         comp.lookup(&m.names())?;
-        let (mut start, mut stop) = equal_range_n(m.get(), &mut comp);
+        let (mut start, mut stop) = equal_range_n(m.get_data(), &mut comp);
         let (before, after) = context.get(start == stop);
         for _x in 0..before {
             if start == 0 {
                 break;
             }
-            start = find_prev(m.get(), start);
+            start = find_prev(m.get_data(), start);
         }
         for _x in 0..after {
-            stop = find_end(m.get(), stop);
+            stop = find_end(m.get_data(), stop);
         }
         if filename.is_none() {
-            write_all_nl(&mut w.0, &m.get()[start..stop])?;
+            write_all_nl(&mut w.0, &m.get_data()[start..stop])?;
         } else {
             let file: &FileNameColumn = filename.as_ref().unwrap();
             while start < stop {
-                let end = find_end(m.get(), start);
+                let end = find_end(m.get_data(), start);
                 w.write_all(f.tail_path_u8(file.tail, b'/').as_bytes())?;
                 w.write_all(&[b'\t'])?;
-                write_all_nl(&mut w.0, &m.get()[start..end])?;
+                write_all_nl(&mut w.0, &m.get_data()[start..end])?;
                 start = end;
             }
         }
diff --git a/src/binsearch.rs b/src/binsearch.rs
index cd3acee..87744ba 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -49,6 +49,11 @@ impl MemMap {
     pub fn get(&self) -> &[u8] {
         &self.map[..]
     }
+    /// get underlying memmap data, without the CDX header
+    #[must_use]
+    pub fn get_data(&self) -> &[u8] {
+        &self.map[self.header_len..]
+    }
     /// get column delimiter
     #[must_use]
     pub const fn get_delim(&self) -> u8 {
-- 
2.43.0


From b57cbccc7b1a10330a6f5cf8dcb7389393b2d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:49 +0000
Subject: [PATCH 13/92] fix: binsearch --sub-delim panicked

---
 src/bin/cdx/binsearch_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/binsearch_main.rs b/src/bin/cdx/binsearch_main.rs
index 4b0c734..dee9c9f 100644
--- a/src/bin/cdx/binsearch_main.rs
+++ b/src/bin/cdx/binsearch_main.rs
@@ -115,7 +115,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             filename = Some(f);
         } else if x.name == "context" {
             context.set(&x.value)?;
-        } else if x.name == "subdelim" {
+        } else if x.name == "sub-delim" {
             if x.value.len() != 1 {
                 return err!("--sub-delim value must be a single character");
             }
-- 
2.43.0


From 9865121c7820cc0e9bdfd5a53cfa1e65c02ce19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 14/92] fix: empty column specifications panicked

---
 src/column.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index e2fb6a1..3929b7d 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -799,7 +799,7 @@ impl ColumnSet {
             None
         };
         loop {
-            if spc.first() == '(' {
+            if spc.starts_with('(') {
                 let pos = find_close(spc)?;
                 self.add_one(&spc[..pos], negate, trans);
                 spc = &spc[pos..];
@@ -862,8 +862,7 @@ impl ColumnSet {
                 Ok(len - n)
             }
         } else {
-            let ch = colname.first();
-            if ch.is_ascii_digit() && ch != '0' {
+            if colname.starts_with(|ch: char| ch.is_ascii_digit() && ch != '0') {
                 let n = colname.to_usize_whole(colname.as_bytes(), "column")?;
                 if n < 1 {
                     err!("Column {} out of bounds", colname)
@@ -913,8 +912,10 @@ impl ColumnSet {
             Some(x) => x,
         };
 
-        let ch = range.first();
-        if ch == '(' {
+        if range.is_empty() {
+            return err!("Empty Range {}", rng);
+        }
+        if range.starts_with('(') {
             return Ok(Self::to_outcols(
                 &Self::match_range(fieldnames, &range[1..range.len() - 1])?,
                 name,
-- 
2.43.0


From 21b2b21936c2093d4d96655fe23a87c6597e539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 15/92] fix: column +0 was accepted, naming a column past the
 end

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 3929b7d..a8745bb 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -856,7 +856,7 @@ impl ColumnSet {
         if let Some(stripped) = colname.strip_prefix('+') {
             let n = stripped.to_usize_whole(colname.as_bytes(), "column")?;
             let len = fieldnames.len();
-            if n > len {
+            if n < 1 || n > len {
                 err!("Column {} out of bounds", colname)
             } else {
                 Ok(len - n)
-- 
2.43.0


From 84be224e95d056028e31c7e810ae0ad361b05f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 16/92] fix: column list with anything after a parenthesized
 matcher was rejected

---
 src/column.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/column.rs b/src/column.rs
index a8745bb..f64c235 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -806,6 +806,11 @@ impl ColumnSet {
                 if spc.is_empty() {
                     break;
                 }
+                if let Some(rest) = spc.strip_prefix(',') {
+                    spc = rest;
+                } else {
+                    return err!("Malformed column list {}", spec);
+                }
             } else if let Some((a, b)) = spc.split_once(',') {
                 self.add_one(a, negate, trans);
                 spc = b;
-- 
2.43.0


From 1ee56812fccd17969cbb82a3491ab15435803b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 17/92] fix: a single column could not be given as +N, counting
 from the end

---
 src/column.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index f64c235..8585257 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1492,13 +1492,18 @@ impl NamedCol {
         let mut spec = orig_spec;
         self.num = 0;
         self.name.clear();
+        self.from_end = 0;
         if spec.is_empty() {
             return err!("Empty string found where column name expected");
         }
         let mut ch = spec.first();
         let was_plus = ch == '+';
         if was_plus {
-            ch = spec.take_first();
+            spec = spec.skip_first();
+            if spec.is_empty() {
+                return err!("'+' must be follwed by a number : {}", orig_spec);
+            }
+            ch = spec.first();
         }
         if ch.is_ascii_digit() && ch != '0' {
             let (a, b) = spec.to_usize();
-- 
2.43.0


From 1d33e4c4d0d97952370d43a560ef4feae51a43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:58 +0000
Subject: [PATCH 18/92] fix: making a header with no columns panicked

---
 src/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 8585257..7bc19d9 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -247,7 +247,7 @@ impl ColumnHeader {
     }
 
     fn get_size(&self) -> usize {
-        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len() - 1
+        self.cols.iter().map(String::len).sum::<usize>() + self.cols.len().saturating_sub(1)
     }
     /// append column names, joined
     fn add_head(&self, res: &mut String, text: &TextFileMode) {
-- 
2.43.0


From be8eb1d857a9121e1de5130a1aa3ebc9b8d7ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:20 +0000
Subject: [PATCH 19/92] fix: quote mode wrote values without a closing quote
 and misread quoted values

---
 src/util.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 297475d..e394d72 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,18 +546,18 @@ fn write_backslash(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()
 }
 
 fn write_quotes(w: &mut dyn Write, buf: &[u8], tab: u8, eol: u8) -> Result<()> {
-    let mut made_quote = false;
+    if !buf.iter().any(|ch| *ch == tab || *ch == eol || *ch == b'"') {
+        w.write_all(buf)?;
+        return Ok(());
+    }
+    w.write_all(b"\"")?;
     for ch in buf {
         if *ch == b'"' {
-            w.write_all(b"\"\"")?;
-            continue;
-        }
-        if !made_quote && (*ch == tab || *ch == eol) {
-            made_quote = true;
-            w.write_all(&[b'"'])?;
+            w.write_all(b"\"")?;
         }
         w.write_all(&[*ch])?;
     }
+    w.write_all(b"\"")?;
     Ok(())
 }
 
@@ -653,24 +653,33 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     let mut end: u32 = 0;
     let mut last_was_quote = false;
     let mut in_quote = false;
+    let mut mid_value = false;
     for ch in line {
         if in_quote {
             if last_was_quote {
+                last_was_quote = false;
                 if *ch == b'"' {
                     tmp.push(*ch);
                     end += 1;
                     continue;
+                }
+                in_quote = false;
+                // not continue
+            } else {
+                if *ch != b'"' || mid_value {
+                    // '""' in the middle of an unquoted value is a quote
+                    in_quote = *ch != b'"';
+                    tmp.push(*ch);
+                    end += 1;
                 } else {
-                    in_quote = false;
-                    // not continue
+                    last_was_quote = true;
                 }
-            } else if *ch == b'"' {
-                last_was_quote = true;
+                mid_value = false;
                 continue;
             }
         } else if *ch == b'"' {
             in_quote = true;
-            last_was_quote = true;
+            mid_value = begin != end;
             continue;
         }
 
-- 
2.43.0


From 7c257bae4b4d2ace3d6e56f538b4580657d627bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:20 +0000
Subject: [PATCH 20/92] fix: empty last column was lost in backslash and quote
 modes

---
 src/util.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e394d72..3c9eb2d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -610,8 +610,8 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
     parts.clear();
     tmp.clear();
     let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
+    if let [rest @ .., b'\n'] = line {
+        line = rest;
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
@@ -636,9 +636,7 @@ pub fn split_backslash(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8
         end += 1;
         last_was_slash = false;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// split a line by a delimiter. Remove trailing newline, if any.
@@ -646,8 +644,8 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
     parts.clear();
     tmp.clear();
     let mut line = line;
-    while !line.is_empty() && line[line.len() - 1] == b'\n' {
-        line = &line[..line.len() - 1];
+    if let [rest @ .., b'\n'] = line {
+        line = rest;
     }
     let mut begin: u32 = 0;
     let mut end: u32 = 0;
@@ -690,9 +688,7 @@ pub fn split_quotes(parts: &mut Vec<FakeSlice>, line: &[u8], tmp: &mut Vec<u8>,
         }
         end += 1;
     }
-    if begin != end {
-        parts.push(FakeSlice { begin, end });
-    }
+    parts.push(FakeSlice { begin, end });
 }
 
 /// A line of a text file, broken into columns.
-- 
2.43.0


From a111cdf058c62c5ce1806a919d747d1f4b0e3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 21/92] fix: lines read in backslash or quote mode were copied
 decoded and without newline

---
 src/util.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3c9eb2d..eb4a5db 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -790,7 +790,8 @@ impl TextLine {
     /// whole line, without newline
     #[must_use]
     pub fn line_nl(&self) -> &[u8] {
-        &self.line[..self.line.len() - 1]
+        let line = self.line();
+        &line[..line.len() - 1]
     }
     /// whole line, with newline, as Vec
     pub fn raw(&mut self) -> &mut Vec<u8> {
@@ -802,6 +803,8 @@ impl TextLine {
         self.line.extend_from_slice(&x.line[..]);
         self.parts.clear();
         self.parts.extend_from_slice(&x.parts[..]);
+        self.orig.clear();
+        self.orig.extend_from_slice(&x.orig[..]);
     }
     /// make a new `TextLine`
     #[must_use]
@@ -1566,14 +1569,12 @@ impl Reader {
     /// get current line contents, without the trailing newline
     #[must_use]
     pub fn curr_nl(&self) -> &[u8] {
-        let line = self.curr_line();
-        &line.line[0..line.line.len() - 1]
+        self.curr_line().line_nl()
     }
     /// get previous line contents, without the trailing newline
     #[must_use]
     pub fn prev_nl(&self, n: usize) -> &[u8] {
-        let line = self.prev_line(n);
-        &line.line[0..line.line.len() - 1]
+        self.prev_line(n).line_nl()
     }
     /// get delimiter
     #[must_use]
@@ -1587,7 +1588,7 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// open file for reading
@@ -1624,8 +1625,9 @@ impl Reader {
     }
     /// get next line of text
     pub fn getline(&mut self) -> Result<bool> {
-        self.loc.bytes += self.curr().line.len();
+        self.loc.bytes += self.curr().line().len();
         self.incr();
+        self.lines[self.curr].orig.clear();
         if self
             .cont
             .text
@@ -1663,12 +1665,12 @@ impl Reader {
     }
     /// write the current text line with newline
     pub fn write_curr(&self, w: &mut impl Write) -> Result<()> {
-        w.write_all(&self.curr_line().line)?;
+        w.write_all(self.curr_line().line())?;
         Ok(())
     }
     /// write previous text line with newline
     pub fn write_prev(&self, w: &mut impl Write, lookback: usize) -> Result<()> {
-        w.write_all(&self.prev_line(lookback).line)?;
+        w.write_all(self.prev_line(lookback).line())?;
         Ok(())
     }
     /// write header
-- 
2.43.0


From 79c49506f23e3114bfb6f11faae128722b326869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 22/92] fix: TextLine::split ignored the quoting mode

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index eb4a5db..b45b314 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -868,7 +868,7 @@ impl TextLine {
     /// split the line into columns
     /// hypothetically you could split on one delimiter, do some work, then split on a different delimiter.
     pub fn split(&mut self, text: &TextFileMode) {
-        split_plain(&mut self.parts, &self.line, text.delim);
+        text.split(self);
     }
     /// return all parts as a vector
     #[must_use]
-- 
2.43.0


From 3bbc1e1f622e65606d8655d7a6801966c2d4a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:53 +0000
Subject: [PATCH 23/92] fix: a header or compressed file was not recognized if
 the first read was short

---
 src/util.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index b45b314..f1750ad 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1246,6 +1246,15 @@ fn unescape_vec(data: &[u8]) -> Vec<u8> {
     ret
 }
 
+/// buffer a file, making sure that the bytes needed to recognize its type, and its header,
+/// are available from the first `fill_buf`, even if the first read returns fewer bytes
+fn whole_start(mut f: Box<dyn Read>) -> Result<(Vec<u8>, io::BufReader<Box<dyn Read>>)> {
+    let mut start = Vec::new();
+    f.by_ref().take(4).read_to_end(&mut start)?;
+    let all = io::Cursor::new(start.clone()).chain(f);
+    Ok((start, io::BufReader::new(Box::new(all))))
+}
+
 /// Make an Infile from a file name
 pub fn get_reader(name: &str) -> Result<Infile> {
     let inner: Box<dyn Read> = {
@@ -1260,10 +1269,9 @@ pub fn get_reader(name: &str) -> Result<Infile> {
             Box::new(fs::File::open(name)?)
         }
     };
-    let mut outer = io::BufReader::new(inner);
-    let start = outer.fill_buf()?;
+    let (start, mut outer) = whole_start(inner)?;
     if start.starts_with(&[0x1fu8, 0x8bu8, 0x08u8]) {
-        outer = io::BufReader::new(Box::new(MultiGzDecoder::new(outer)));
+        outer = whole_start(Box::new(MultiGzDecoder::new(outer)))?.1;
     }
     Ok(Infile::new(outer, name))
 }
-- 
2.43.0


From 581d63dbde6cef918f3728a95738727f802ce4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 24/92] fix: invented column names were not separated when the
 delimiter is not tab

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index f1750ad..457e7a7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1339,7 +1339,7 @@ impl InfileContext {
             for i in 1..=line.len() {
                 head_str += "c";
                 head_str += &i.to_string();
-                head_str += "\t";
+                head_str.push(self.text.delim as char);
             }
             head_str.pop();
             head_str += "\n";
-- 
2.43.0


From 3e6d758c071177d8bbfa462c2866c3d223fbb537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 25/92] fix: header mode 'strip' refused a header in the first
 file, and 'none' accepted it

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 457e7a7..5c65c2c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2023,7 +2023,7 @@ impl HeaderChecker {
             }
         } else {
             self.saw_one = true;
-            if cdx && self.mode == HeaderMode::Strip {
+            if cdx && self.mode == HeaderMode::None {
                 return err!("Found CDX header in {} where one was forbidden", fname);
             } else if !cdx && self.mode == HeaderMode::Require {
                 return err!("Found no CDX header in {} where one was required", fname);
-- 
2.43.0


From a1a8d5f0d421d3911c3b934e1d33a15c718db32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 26/92] fix: header mode 'require' did not compare headers

---
 src/util.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 5c65c2c..9bc16c9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2009,6 +2009,14 @@ impl HeaderChecker {
                     if !cdx {
                         return err!("No CDX Header found in {} where one was required.", fname);
                     }
+                    if first_line != self.head {
+                        return err!(
+                            "Header Mismatch. First was {}, File {} has {}",
+                            String::from_utf8_lossy(&self.head),
+                            fname,
+                            String::from_utf8_lossy(first_line)
+                        );
+                    }
                     Ok(false)
                 }
                 HeaderMode::Strip => Ok(!cdx),
-- 
2.43.0


From 990a068606ad372de082db65e8166e610f6dcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 27/92] fix: a header after a file without one was written in
 the middle of the output

---
 src/bin/cdx/cat_main.rs   |  2 +-
 src/bin/cdx/cgrep_main.rs |  2 +-
 src/bin/cdx/cut_main.rs   |  2 +-
 src/util.rs               | 16 +++++++++++++---
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 0e369b0..824a26d 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -156,7 +156,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.has_header() {
                 not_header = header.get_head(&settings.text_out());
             }
-            if settings.checker.check(not_header.as_bytes(), x)? {
+            if settings.checker.check_head(&not_header, x)? {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 7e3da09..0a9ee7b 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -52,7 +52,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_head(&not_header, x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/bin/cdx/cut_main.rs b/src/bin/cdx/cut_main.rs
index b94ad97..7eb4ee3 100644
--- a/src/bin/cdx/cut_main.rs
+++ b/src/bin/cdx/cut_main.rs
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         if f.has_header() {
             not_header = header.get_head(&settings.text_out());
         }
-        if settings.checker.check(not_header.as_bytes(), x)? {
+        if settings.checker.check_head(&not_header, x)? {
             w.write_all(not_header.as_bytes())?;
         }
         if f.is_done() {
diff --git a/src/util.rs b/src/util.rs
index 9bc16c9..412249d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1961,13 +1961,23 @@ impl HeaderChecker {
     /// call for the first line of every input file
     /// return true if the header should be written
     pub fn check_file(&mut self, file: &Reader, fname: &str) -> Result<bool> {
-        let first = !self.saw_one;
         if file.has_header() {
-            self.check(file.header().line.as_bytes(), fname)?;
+            self.check_head(&file.header().line, fname)
         } else {
+            self.check_head("", fname)
+        }
+    }
+
+    /// call for every non-empty input file, `head` is empty if the file has no header
+    /// return true if the header should be written
+    pub fn check_head(&mut self, head: &str, fname: &str) -> Result<bool> {
+        if head.is_empty() {
             self.check(b"fake", fname)?;
+            Ok(false)
+        } else {
+            let first = !self.saw_one;
+            Ok(self.check(head.as_bytes(), fname)? && first)
         }
-        Ok(file.has_header() && first)
     }
 
     /// call for the first line of every input file
-- 
2.43.0


From 1ac3ec6c8d1c45ac116830a11c38a919ffd87ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 28/92] fix: cat joined the last line of a file to the next
 file if it had no newline

---
 src/bin/cdx/cat_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index 824a26d..a408898 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -198,7 +198,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     break;
                 }
                 w.write_all(&buffer[..n])?;
-                last_was_cr = first_line.last().unwrap() == &b'\n';
+                last_was_cr = buffer[n - 1] == b'\n';
             }
             if pad == PadMode::All && !last_was_cr {
                 w.write_all(b"\n")?;
-- 
2.43.0


From 902c6c3ca90fc4eb462d6507b0a55cedbcec375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:09 +0000
Subject: [PATCH 29/92] fix: cat, sample and wc ignored the files after one
 that has only a header

---
 src/bin/cdx/cat_main.rs    | 2 +-
 src/bin/cdx/sample_main.rs | 2 +-
 src/bin/cdx/wc_main.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/cat_main.rs b/src/bin/cdx/cat_main.rs
index a408898..2a10947 100644
--- a/src/bin/cdx/cat_main.rs
+++ b/src/bin/cdx/cat_main.rs
@@ -160,7 +160,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 w.write_all(not_header.as_bytes())?;
             }
             if f.is_done() {
-                return Ok(());
+                continue;
             }
             f.do_split(false);
             loop {
diff --git a/src/bin/cdx/sample_main.rs b/src/bin/cdx/sample_main.rs
index ccebd91..23ec2aa 100644
--- a/src/bin/cdx/sample_main.rs
+++ b/src/bin/cdx/sample_main.rs
@@ -141,7 +141,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             w.write_all(f.header().line.as_bytes())?;
         }
         if f.is_done() {
-            return Ok(());
+            continue;
         }
         f.do_split(false);
         if saw_sample {
diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index a70ea1e..8f2e371 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -107,7 +107,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
             }
             if f.is_done() {
-                break;
+                continue;
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-- 
2.43.0


From 1d24d9641a8ea3f559dd2aee33449bcfbd639076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 30/92] fix: Reader::open counted lines from zero, so sample
 selected the wrong lines

---
 src/bin/cdx/verify_main.rs |  2 +-
 src/util.rs                | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 878a985..bf61abc 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -100,7 +100,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.curr().len() != num_cols {
                 eprintln!(
                     "Expected {num_cols} columns, but line {} of {} had {}",
-                    f.line_number() + 1,
+                    f.line_number(),
                     x,
                     f.curr().len()
                 );
diff --git a/src/util.rs b/src/util.rs
index 412249d..3c6ff9c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1565,13 +1565,7 @@ impl Reader {
             loc: FileLocData::default(),
         };
         tmp.cont.read_header(&mut *tmp.file, &mut tmp.lines[0])?;
-        tmp.loc.name = name.to_string();
-        tmp.loc.line = 1;
-        tmp.loc.bytes = if tmp.has_header() {
-            tmp.header().line.len()
-        } else {
-            0
-        };
+        tmp.start_loc(name);
         Ok(tmp)
     }
     /// get current line contents, without the trailing newline
@@ -1602,7 +1596,19 @@ impl Reader {
     /// open file for reading
     pub fn open(&mut self, name: &str) -> Result<()> {
         self.file = get_reader(name)?;
-        self.cont.read_header(&mut *self.file, &mut self.lines[0])
+        self.cont.read_header(&mut *self.file, &mut self.lines[0])?;
+        self.start_loc(name);
+        Ok(())
+    }
+    // location of the first line
+    fn start_loc(&mut self, name: &str) {
+        self.loc.name = name.to_string();
+        self.loc.line = 1;
+        self.loc.bytes = if self.has_header() {
+            self.header().line.len()
+        } else {
+            0
+        };
     }
     /// The full text of the header, without the trailing newline
     #[must_use]
-- 
2.43.0


From 788c8d7e29f10120ca4c351ed4770f022bceea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:21 +0000
Subject: [PATCH 31/92] fix: binsearch panicked on a file with a truncated
 header

---
 src/binsearch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/binsearch.rs b/src/binsearch.rs
index 87744ba..e38285e 100644
--- a/src/binsearch.rs
+++ b/src/binsearch.rs
@@ -28,6 +28,9 @@ impl MemMap {
         let mut header_len = find_end(&map[..], 0);
         let mut header = StringLine::new();
         if is_cdx(&map[..]) {
+            if map.len() < 6 {
+                return err!("File {} has an oddly truncated header line", fname);
+            }
             delim = map[4];
             header.line = std::str::from_utf8(&map[0..header_len])?.to_string();
         } else {
-- 
2.43.0


From 2325c1512946b81393c9fcb37e8e773745c5b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:21 +0000
Subject: [PATCH 32/92] fix: wc --columns panicked on a line with more columns
 than the header

---
 src/bin/cdx/wc_main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 8f2e371..c3b5bc5 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -111,7 +111,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             loop {
                 for (i, x) in f.curr_line().iter().enumerate() {
-                    aggs[colmap[i]].agg.add(x);
+                    if let Some(pos) = colmap.get(i) {
+                        aggs[*pos].agg.add(x);
+                    }
                 }
                 if f.getline()? {
                     break;
-- 
2.43.0


From 308ba967f6a84f6e2ccbed1b5e13ee14fc5bf940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 33/92] fix: glob skipped a character when trying the next
 match of a star

---
 src/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index cecf811..df95d8c 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -241,7 +241,7 @@ pub trait Text {
                     return true;
                 }
                 mp = wild;
-                cp = buff.skip_first();
+                cp = buff;
             } else if !wild.is_empty() && self.chars_equal(wild.first(), buff.first(), ic) {
                 wild = wild.skip_first();
                 buff = buff.skip_first();
-- 
2.43.0


From db925d5f4b050916bee1ada10945b12da84198ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 34/92] fix: the null modifier of a matcher negated the match

---
 src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 56cf87f..5d5bdd2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,7 +1860,7 @@ impl MatchMaker {
                 } else if x.eq_ignore_ascii_case("trim") {
                     m.trim = true;
                 } else if x.eq_ignore_ascii_case("null") {
-                    m.negate = true;
+                    m.empty = true;
                 } else if x.eq_ignore_ascii_case("case") {
                     m.case = Case::Insens;
                 } else if x.eq_ignore_ascii_case("and") {
-- 
2.43.0


From 8c9ca72d741d79bc5ca7c7912e16c8d37ac06616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 35/92] fix: case.suffix panicked on an empty value

---
 src/matcher.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 5d5bdd2..a15bfb2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -406,14 +406,7 @@ fn bcase_suffix(haystack: &[u8], needle: &[u8]) -> bool {
     if needle.len() > haystack.len() {
         return false;
     }
-    let hay_len = haystack.len() - 1;
-    let nee_len = needle.len() - 1;
-    for x in 0..needle.len() {
-        if haystack[hay_len - x].to_ascii_lowercase() != needle[nee_len - x] {
-            return false;
-        }
-    }
-    true
+    bcase_prefix(&haystack[haystack.len() - needle.len()..], needle)
 }
 
 // needle is already lowercase
-- 
2.43.0


From b6d6002fcdb2e423563684150e90e12826e97951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 36/92] fix: utf8.case.exact did not match upper case letters

---
 src/matcher.rs |  4 ++--
 src/text.rs    | 19 ++++---------------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index a15bfb2..90c3bf2 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -748,10 +748,10 @@ impl ExactMatchC {
 }
 impl Match for ExactMatchC {
     fn smatch(&self, buff: &str) -> bool {
-        buff.equal_insens_quick(&self.s_data)
+        self.s_data.equal_insens_quick(buff)
     }
     fn umatch(&self, buff: &[u8]) -> bool {
-        buff.equal_insens_quick(&self.u_data)
+        self.u_data.equal_insens_quick(buff)
     }
     fn show(&self) -> String {
         format!("Case insensitive exact match of {}", self.s_data)
diff --git a/src/text.rs b/src/text.rs
index df95d8c..336f00f 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -380,25 +380,14 @@ impl Text for str {
     }
 
     fn equal_insens(&self, other: &Self) -> bool {
-        for ch in self
-            .chars()
+        self.chars()
             .flat_map(char::to_lowercase)
-            .zip(other.chars().flat_map(char::to_lowercase))
-        {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn equal_insens_quick(&self, other: &Self) -> bool {
-        for ch in self.chars().zip(other.chars().flat_map(char::to_lowercase)) {
-            if ch.0 != ch.1 {
-                return false;
-            }
-        }
-        self.len() == other.len()
+        self.chars()
+            .eq(other.chars().flat_map(char::to_lowercase))
     }
 
     fn cmp_insens(&self, other: &Self) -> Ordering {
-- 
2.43.0


From 635f4e0cbdd91d74f59ee97fc93c25d80fc34b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 37/92] fix: the not modifier was ignored outside of line
 matchers, as in cat --remove

---
 src/matcher.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index 90c3bf2..b77f3ac 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1023,13 +1023,12 @@ impl WholeMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for WholeMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.line_nl()))
-            } else {
-                self.matcher.umatch(line.line_nl())
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.line_nl()))
+        } else {
+            self.matcher.umatch(line.line_nl())
+        }
     }
 
     fn lookup(&mut self, _fieldnames: &[&str]) -> Result<()> {
@@ -1115,7 +1114,8 @@ impl LineMatch for ColSetMatcher {
             } else {
                 self.matcher.umatch(line.get(x.num))
             };
-            if did_match {
+            // negate applies to the determination as a whole
+            if did_match ^ self.matcher.negate {
                 yes += 1;
             } else {
                 no += 1;
@@ -1159,13 +1159,12 @@ impl ColMatcher {
 // LineMatch::matcher could return Result<bool> and then we can put strict back
 impl LineMatch for ColMatcher {
     fn ok(&mut self, line: &TextLine) -> bool {
-        self.matcher.negate
-            ^ if self.matcher.string {
-                self.matcher
-                    .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
-            } else {
-                self.matcher.umatch(line.get(self.col.num))
-            }
+        if self.matcher.string {
+            self.matcher
+                .smatch(&String::from_utf8_lossy(line.get(self.col.num)))
+        } else {
+            self.matcher.umatch(line.get(self.col.num))
+        }
     }
 
     fn lookup(&mut self, fieldnames: &[&str]) -> Result<()> {
@@ -1543,11 +1542,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.smatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.smatch(buff))
     }
     /// Are these bytes ok?
     #[must_use]
@@ -1555,11 +1550,7 @@ impl Matcher {
         if self.trim {
             buff = buff.trimw();
         }
-        if self.empty && buff.is_empty() {
-            true
-        } else {
-            self.matcher.umatch(buff)
-        }
+        self.negate ^ ((self.empty && buff.is_empty()) || self.matcher.umatch(buff))
     }
     /// umatch or smatch, depending on self.string
     pub fn do_match(&self, buff: &[u8]) -> Result<bool> {
@@ -1874,6 +1865,7 @@ impl MatchMaker {
             for x in pattern.split(delim) {
                 let mut m2 = m.clone();
                 m2.multi_mode = None; // not really necessary
+                m2.negate = false; // applies to the combined match
                 Self::remake(&mut m2, x)?;
                 outer.push_obj(m2);
             }
-- 
2.43.0


From 99e6f27ba2fd6e7d92f0fbfda2e75120b07720f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 38/92] fix: an empty multi-pattern made the matcher panic

---
 src/matcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index b77f3ac..be74613 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -1860,6 +1860,9 @@ impl MatchMaker {
         if let Some(mm) = m.multi_mode {
             let mut outer = Box::new(MatcherList::new_with(mm));
             let mut pattern = pattern;
+            if pattern.is_empty() {
+                return err!("Multi-pattern can't be empty");
+            }
             let delim = pattern.first();
             pattern = pattern.skip_first();
             for x in pattern.split(delim) {
-- 
2.43.0


From 54076548c405bb69c3bafbfb9161b49e9c62deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 39/92] fix: the comp matcher panicked on a non-ASCII operator

---
 src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index be74613..fbd6924 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -948,14 +948,14 @@ impl CompMatcher {
             return err!("CompMatcher format is OpColumns,Comparator, '{}'", pattern);
         }
         // FIXME - factor out this CompareOp parsing
-        let op1 = pattern[0..2].parse::<CompareOp>();
+        let op1 = pattern.get(0..2).map(str::parse::<CompareOp>);
         let op;
-        if let Ok(o) = op1 {
+        if let Some(Ok(o)) = op1 {
             pattern = &pattern[2..];
             op = o;
         } else {
-            let op1 = pattern[0..1].parse::<CompareOp>();
-            if let Ok(o) = op1 {
+            let op1 = pattern.get(0..1).map(str::parse::<CompareOp>);
+            if let Some(Ok(o)) = op1 {
                 pattern = &pattern[1..];
                 op = o;
             } else if let Some((a, b)) = pattern.split_once('.') {
-- 
2.43.0


From e9a42f0160667f58fe18671e8665cf4d286c1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 40/92] fix: atmost and atleast with a fraction were exchanged

---
 src/matcher.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index fbd6924..deaefeb 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -186,7 +186,7 @@ impl Thresh {
     pub fn at_most_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n <= *c,
-            Self::Frac(f) => num::f64_less(*f, n, tot),
+            Self::Frac(f) => num::f64_greater(*f, n, tot.max(1)),
         }
     }
     /// we've seen this many, is that a match?
@@ -194,7 +194,7 @@ impl Thresh {
     pub fn at_least_final(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n >= *c,
-            Self::Frac(f) => num::f64_greater(*f, n, tot),
+            Self::Frac(f) => num::f64_less(*f, n, tot.max(1)),
         }
     }
     /// we've seen this many, is that a match?
@@ -202,7 +202,7 @@ impl Thresh {
     pub fn exactly(&self, n: usize, tot: usize) -> bool {
         match self {
             Self::Count(c) => n == *c,
-            Self::Frac(f) => num::f64_equal(*f, n, tot),
+            Self::Frac(f) => num::f64_equal(*f, n, tot.max(1)),
         }
     }
 }
-- 
2.43.0


From 974e7823783bf9d21cb70f37fd69ec1549ece79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:43 +0000
Subject: [PATCH 41/92] fix: column groups in matchers were never recognised

---
 src/matcher.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index deaefeb..8e06592 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -272,6 +272,15 @@ impl Determiner {
             return err!("Unknown Determiner {spec}");
         })
     }
+    /// split "all,Columns" or "atleast,42,Columns" into determiner and the rest
+    fn split_off(spec: &str) -> Result<(Self, &str)> {
+        for (i, _) in spec.match_indices(',').take(2) {
+            if let Ok(det) = Self::new(&spec[..i]) {
+                return Ok((det, &spec[i + 1..]));
+            }
+        }
+        err!("ColumnGroup format is Determiner,ColumnSet, not '{spec}'")
+    }
     /// we've seen this many yes's and this many no's, with more to come. Are we done yet?
     #[must_use]
     pub const fn match_mid(&self, yes: usize, no: usize) -> Tri {
@@ -898,15 +907,17 @@ impl ColGroup {
             Ok((Self::default(), &spec[1..]))
         } else if spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[1..len - 1];
+            let rest = &spec[len..];
+            let (det, cols) =
+                Determiner::split_off(cols).unwrap_or_else(|_| (Determiner::default(), cols));
             Ok((
                 Self {
                     col: ColumnSet::from_spec(cols)?,
-                    det: Determiner::default(),
+                    det,
                     has_col: true,
                 },
-                rest,
+                rest.strip_prefix(',').unwrap_or(rest),
             ))
         } else if let Some((a, b)) = spec.split_once(',') {
             Ok((
@@ -1091,15 +1102,12 @@ struct ColSetMatcher {
 impl ColSetMatcher {
     /// new from parts
     fn new(cols: &str, method: &str, pattern: &str) -> Result<Self> {
-        if let Some((a, b)) = cols.split_once(',') {
-            Ok(Self {
-                matcher: MatchMaker::make2(method, pattern)?,
-                col: ColumnSet::from_spec(b)?,
-                det: Determiner::new(a)?,
-            })
-        } else {
-            err!("ColumnGroup format is Determiner,ColumnSet")
-        }
+        let (det, col) = Determiner::split_off(cols)?;
+        Ok(Self {
+            matcher: MatchMaker::make2(method, pattern)?,
+            col: ColumnSet::from_spec(col)?,
+            det,
+        })
     }
 }
 
@@ -1918,8 +1926,9 @@ impl MatchMaker {
     pub fn make_line(spec: &str) -> Result<Box<dyn LineMatch>> {
         if !spec.is_empty() && spec.first() == '[' {
             let len = util::find_close(spec)?;
-            let cols = &spec[1..len];
-            let rest = &spec[(len + 1)..];
+            let cols = &spec[..len];
+            let rest = &spec[len..];
+            let rest = rest.strip_prefix(',').unwrap_or(rest);
             if let Some((c, d)) = rest.split_once(',') {
                 Self::make_line3(cols, c, d)
             } else {
-- 
2.43.0


From e30bb962d5f0910575d0c643b9cce74ae973cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 42/92] fix: the integer suffixes M to E multiplied by garbage,
 as ^ is not a power

---
 src/num.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index e04a816..88cda16 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -272,11 +272,11 @@ const P10_LETTERS: &[u8] = b"0kmgtpezy";
 const P2_VALUES_U: [usize; 9] = [
     1,
     1024,
-    1024 ^ 2,
-    1024 ^ 3,
-    1024 ^ 4,
-    1024 ^ 5,
-    1024 ^ 6,
+    1024_usize.pow(2),
+    1024_usize.pow(3),
+    1024_usize.pow(4),
+    1024_usize.pow(5),
+    1024_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
@@ -294,11 +294,11 @@ const P2_VALUES_F: [f64; 9] = [
 const P10_VALUES_U: [usize; 9] = [
     1,
     1000,
-    1000 ^ 2,
-    1000 ^ 3,
-    1000 ^ 4,
-    1000 ^ 5,
-    1000 ^ 6,
+    1000_usize.pow(2),
+    1000_usize.pow(3),
+    1000_usize.pow(4),
+    1000_usize.pow(5),
+    1000_usize.pow(6),
     usize::MAX,
     usize::MAX,
 ];
-- 
2.43.0


From 53d399b4ffedb0b50660cafc372eeb5256f91f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 43/92] fix: integers too large for their type wrapped around
 instead of saturating

---
 src/text.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 336f00f..be059ed 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -620,14 +620,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as usize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as usize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul;
+                ret = ret.saturating_mul(mul);
             }
         }
         (ret, curr)
@@ -648,14 +648,14 @@ impl Text for [u8] {
             return (0, self);
         }
         while !curr.is_empty() && curr[0].is_ascii_digit() {
-            ret *= 10;
-            ret += (curr[0] - b'0') as isize;
+            ret = ret.saturating_mul(10);
+            ret = ret.saturating_add((curr[0] - b'0') as isize);
             curr = &curr[1..];
         }
         if !curr.is_empty() {
             if let Some(mul) = suffix_valu(curr[0]) {
                 curr = &curr[1..];
-                ret *= mul as isize;
+                ret = ret.saturating_mul(isize::try_from(mul).unwrap_or(isize::MAX));
             }
         }
         ret *= neg;
-- 
2.43.0


From e206051d93d9e8742320d3f369ead5c9eaf013bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 44/92] fix: large exponents wrapped around, and 0e400 was not
 a number

---
 src/text.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index be059ed..bb06446 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -702,8 +702,8 @@ impl Text for [u8] {
             }
             let mut exponent: i32 = 0;
             while !curr.is_empty() && curr[0].is_ascii_digit() {
-                exponent *= 10;
-                exponent += i32::from(curr[0] - b'0');
+                exponent = exponent.saturating_mul(10);
+                exponent = exponent.saturating_add(i32::from(curr[0] - b'0'));
                 curr = &curr[1..];
             }
             exponent *= neg_exp;
@@ -715,6 +715,8 @@ impl Text for [u8] {
                     ret *= 0.1;
                 }
                 0 => {}
+                // zero, whatever the exponent
+                _ if ret == 0.0 => {}
                 1 => {
                     ret *= 10.0;
                 }
-- 
2.43.0


From 9fa81de00ddb5f58599898bcd6c8c91c7e1f1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 45/92] fix: the short number format was often the longer one
 (0 was 0e0)

---
 src/num.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index 88cda16..a32db02 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -184,8 +184,11 @@ impl NumFormat {
     fn new_format(self, num: f64) -> Self {
         match self {
             Self::Short(x) => {
-                let num = num.abs();
-                if (0.0001..1000.0).contains(&num) {
+                let (plain, float) = match x {
+                    Some(prec) => (format!("{num:.prec$}"), format!("{num:.prec$e}")),
+                    None => (format!("{num}"), format!("{num:e}")),
+                };
+                if plain.len() <= float.len() {
                     Self::Plain(x)
                 } else {
                     Self::Float(x)
-- 
2.43.0


From b3db05de90b0f85726f5ed00e4dc419e92098fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 46/92] fix: the operators <= >= == and != never worked in
 expressions

---
 src/tok2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 12fa02d..8c8975a 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -119,7 +119,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '!' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::NE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Unary(UnaryOp::Fact));
                 }
@@ -127,7 +127,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '<' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::LE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::LT));
                 }
@@ -135,7 +135,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '>' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::GE));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     res.push(Token::Binary(BinaryOp::GT));
                 }
@@ -143,7 +143,7 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
             '=' => {
                 if next == '=' {
                     res.push(Token::Binary(BinaryOp::EQ));
-                    input.skip_first();
+                    input = input.skip_first();
                 } else {
                     return err!("Equal can't be followed by {} in '{}'", next, orig);
                 }
-- 
2.43.0


From 16d412e89ff1cec68f153790f756f6bd1f375419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 47/92] fix: + or - after a factorial was taken for a sign

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 8c8975a..39755ab 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -63,7 +63,7 @@ const fn can_binary(tok: &Token) -> bool {
     use Token::{Binary, Comma, Func, LParen, Number, RParen, Unary, Var};
     match tok {
         Binary(_) => false,
-        Unary(_) => false,
+        Unary(op) => matches!(op, UnaryOp::Fact),
         LParen => false,
         RParen => true,
         Comma => false,
-- 
2.43.0


From a83dfe080926160a8b8813f68567035a89705431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 48/92] fix: names with an underscore, such as M_PI, could not
 be used in expressions

---
 src/tok2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index 39755ab..edc572c 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -152,7 +152,9 @@ pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
                 if ch.is_alphabetic() {
                     let mut var = String::new();
                     var.push(ch);
-                    while !input.is_empty() && input.first().is_alphanumeric() {
+                    while !input.is_empty()
+                        && (input.first().is_alphanumeric() || input.first() == '_')
+                    {
                         var.push(input.take_first());
                     }
                     res.push(Token::Var(var));
-- 
2.43.0


From 053e283b50bc0888558b02ccbad6a095b56d3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 49/92] fix: acos was abs, and the factorial of 0 was 0

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 8d19549..20b66f2 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -319,7 +319,7 @@ fn apply_func(op: FuncOp, args: &[f64]) -> f64 {
         Sin, Sinh, Sqrt, Tan, Tanh, Tgamma, Trunc, Yn, J0, J1, Y0, Y1,
     };
     match op {
-        Acos => args[0].abs(),
+        Acos => args[0].acos(),
         Acosh => args[0].acosh(),
         Asinh => args[0].asinh(),
         Asin => args[0].asin(),
@@ -649,7 +649,7 @@ fn factorial(x: f64) -> f64 {
 }
 
 const FACTORIAL: [f64; 171] = [
-    0.0,
+    1.0,
     1.0,
     2.0,
     6.0,
-- 
2.43.0


From f66a35a60956947fa595ea9ed0c1c428835ea97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 50/92] fix: an empty expression panicked, and malformed ones
 such as (1)2+ were accepted

---
 src/shunting_yard.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/shunting_yard.rs b/src/shunting_yard.rs
index d4899ee..046fb99 100644
--- a/src/shunting_yard.rs
+++ b/src/shunting_yard.rs
@@ -45,9 +45,24 @@ const fn prec_assoc(token: &Token) -> (u32, Associativity) {
 pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
     let mut output = Vec::with_capacity(input.len());
     let mut stack = Vec::with_capacity(input.len());
+    // is an operand needed next, rather than an operator
+    let mut need_operand = true;
 
     for (index, token) in input.iter().enumerate() {
         let token = token.clone();
+        let is_operand = match &token {
+            Number(_) | Var(_) | LParen | Func(..) => true,
+            Unary(op) => *op != UnaryOp::Fact,
+            Binary(_) | RParen | Comma => false,
+        };
+        if is_operand != need_operand {
+            return err!("Malformed expression");
+        }
+        need_operand = match &token {
+            Number(_) | Var(_) | RParen => false,
+            Unary(op) => *op != UnaryOp::Fact,
+            Binary(_) | LParen | Comma | Func(..) => true,
+        };
         match token {
             Number(_) | Var(_) => output.push(token),
             Unary(_) => stack.push((index, token)),
@@ -138,8 +153,8 @@ pub(crate) fn to_rpn(input: &[Token]) -> Result<Vec<Token>> {
         }
     }
 
-    if n_operands > 1 {
-        return err!("Too Many Operands");
+    if n_operands != 1 {
+        return err!("Wrong Number Of Operands");
     }
 
     output.shrink_to_fit();
-- 
2.43.0


From 6bd33769c352405a93c8666ff2f9d3915c8aff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 51/92] fix: column c0 in an expression panicked

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 20b66f2..0abe417 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -492,7 +492,11 @@ impl Expr {
                 static ref CN: Regex = Regex::new("^c([0-9]+)$").unwrap();
             }
             if let Some(cn) = CN.captures(&y.name) {
-                y.col = Some(cn.get(1).unwrap().as_str().to_usize_whole(b"", "").unwrap() - 1);
+                let n = cn.get(1).unwrap().as_str().to_usize_whole(b"", "")?;
+                if n == 0 {
+                    return err!("Columns are numbered from one : {}", y.name);
+                }
+                y.col = Some(n - 1);
                 continue;
             }
             // FIXME - some way to declare other variables
-- 
2.43.0


From 2e6e9c18305d94763acfdd770ef9de9206c94a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:08 +0000
Subject: [PATCH 52/92] fix: expressions used the column numbers of the first
 file for all files

---
 src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 0abe417..05f7a7c 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -481,7 +481,11 @@ impl Expr {
         }
         let start_vars = self.vars.len();
         self.parse(&n)?;
-        'outer: for y in self.vars.iter_mut().skip(start_vars) {
+        'outer: for (i, y) in self.vars.iter_mut().enumerate() {
+            // columns found by an earlier lookup may be elsewhere in this file
+            if i < start_vars && y.col.is_none() {
+                continue;
+            }
             for (i, x) in fieldnames.iter().enumerate() {
                 if *x == y.name {
                     y.col = Some(i);
-- 
2.43.0


From cfe58c316f453213b52f7d989e1d0b30f43955dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:48 +0000
Subject: [PATCH 53/92] fix: a function argument could not begin with a sign,
 as in abs(-2)

---
 src/tok2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tok2.rs b/src/tok2.rs
index edc572c..4dc5790 100644
--- a/src/tok2.rs
+++ b/src/tok2.rs
@@ -69,7 +69,7 @@ const fn can_binary(tok: &Token) -> bool {
         Comma => false,
         Number(_) => true,
         Var(_) => true,
-        Func(_, _) => true,
+        Func(_, _) => false,
     }
 }
 pub(crate) fn tokenize<S: AsRef<str>>(orig: S) -> Result<Vec<Token>> {
-- 
2.43.0


From e7683ddfa73f94b5e34e042c28f39d8840510f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:37 +0000
Subject: [PATCH 54/92] fix: normspace put a blank after the first character of
 text with leading blanks

---
 src/trans.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trans.rs b/src/trans.rs
index 92912ba..47fefea 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -124,8 +124,8 @@ impl Trans for NormSpace {
             } else {
                 if need_space && !dst.is_empty() {
                     dst.push(b' ');
-                    need_space = false;
                 }
+                need_space = false;
                 dst.push(*x);
             }
         }
@@ -148,8 +148,8 @@ impl Trans for NormSpaceUtf8 {
             } else {
                 if need_space && !self.tmp.is_empty() {
                     self.tmp.push(' ');
-                    need_space = false;
                 }
+                need_space = false;
                 self.tmp.push(x);
             }
         }
-- 
2.43.0


From e49a23d005d55948b2489a3eab97ce8a4cfdd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:37 +0000
Subject: [PATCH 55/92] fix: transform aliases were unknown to the first
 transform of a program

---
 src/trans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trans.rs b/src/trans.rs
index 47fefea..3d13d4c 100644
--- a/src/trans.rs
+++ b/src/trans.rs
@@ -390,6 +390,7 @@ impl TransMaker {
     }
     /// Create a Trans from a trans spec and a pattern
     pub fn make2(trans: &str, pattern: &str) -> Result<Transform> {
+        Self::init()?;
         let mut spec = trans.to_string();
         if !pattern.is_empty() {
             spec.push(',');
-- 
2.43.0


From 0e4a2dd954bc4371ee5bd3a818e3725368e1b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:37 +0000
Subject: [PATCH 56/92] fix: sampling two lines of a longer file panicked

---
 src/sampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampler.rs b/src/sampler.rs
index f1e4b2d..4255f03 100644
--- a/src/sampler.rs
+++ b/src/sampler.rs
@@ -22,7 +22,7 @@ impl Smooth {
     #[must_use]
     pub fn new(sz: usize) -> Self {
         let small = sz.max(2);
-        let large = small * 2 - 2;
+        let large = (small * 2 - 2).max(small + 1);
         let mut data = Vec::with_capacity(large);
         for _ in 0..large {
             data.push(Vec::new());
-- 
2.43.0


From 33339b383ffafa3b6d5d16f5cbb14ff4a2d5992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:49 +0000
Subject: [PATCH 57/92] fix: paste --last panicked on a file without lines

---
 src/bin/cdx/paste_main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index 0ac2311..e5d132b 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -65,6 +65,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     let mut do_header = true;
     let mut rngs: Vec<std::ops::Range<usize>> = Vec::new();
     let mut curr_cols = 0;
+    let mut had_data: Vec<bool> = Vec::with_capacity(files.len());
     for x in &files {
         let mut f = Reader::new(&settings.text_in);
         f.open(x)?;
@@ -76,6 +77,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else {
             header.push_all_unchecked(f.header());
         }
+        had_data.push(!f.is_done());
         if f.is_done() {
             num_dead += 1;
         } else {
@@ -130,7 +132,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             }
             need_delim = true;
             if f.is_done() {
-                if use_last {
+                if use_last && had_data[i] {
                     w.write_all(f.prev_nl(1))?;
                 } else {
                     let mut nd = false;
-- 
2.43.0


From ab0096b668835bb44af826ff69cc6594ec49ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 58/92] fix: min and max aggregators ignored a reversed
 comparison

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index 311b2f7..d7f4f48 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -864,7 +864,7 @@ impl Agg for Min {
             self.val.extend_from_slice(data);
             return;
         }
-        if self.comp.comp.comp(&self.val, data) == Ordering::Greater {
+        if self.comp.comp(&self.val, data) == Ordering::Greater {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
@@ -1085,7 +1085,7 @@ impl Max {
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
-        if self.comp.comp.comp(&self.val, data) == Ordering::Less {
+        if self.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
         }
-- 
2.43.0


From 59de52a668653615e0d0011ee7ed82ab9ea52099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 59/92] fix: max aggregator took the empty string as a value it
 had seen

---
 src/agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/agg.rs b/src/agg.rs
index d7f4f48..3156b8f 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1072,6 +1072,7 @@ impl Agg for AMean {
 struct Max {
     comp: Comp,
     val: Vec<u8>,
+    empty: bool,
 }
 
 impl Max {
@@ -1079,12 +1080,18 @@ impl Max {
         Ok(Self {
             comp: CompMaker::make_comp(spec)?,
             val: Vec::new(),
+            empty: true,
         })
     }
 }
 
 impl Agg for Max {
     fn add(&mut self, data: &[u8]) {
+        if self.empty {
+            self.empty = false;
+            self.val.extend_from_slice(data);
+            return;
+        }
         if self.comp.comp(&self.val, data) == Ordering::Less {
             self.val.clear();
             self.val.extend_from_slice(data);
@@ -1096,6 +1103,7 @@ impl Agg for Max {
     }
     fn reset(&mut self) {
         self.val.clear();
+        self.empty = true;
     }
     fn value(&self) -> f64 {
         self.val.to_f64_lossy()
-- 
2.43.0


From 4c22976752bab95c8f3a1fa4d9933449e2e03336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 60/92] fix: amean aggregator printed the sum

---
 src/agg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agg.rs b/src/agg.rs
index 3156b8f..b6a1505 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -1061,7 +1061,7 @@ impl Agg for AMean {
         self.num += 1;
     }
     fn result(&mut self, w: &mut dyn Write, fmt: NumFormat) -> Result<()> {
-        fmt.print(self.val as f64, w)
+        fmt.print(self.value(), w)
     }
     fn reset(&mut self) {
         self.val = 0;
-- 
2.43.0


From d62192d019e0902ebdad6d94b1615369e01cdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 61/92] fix: LineAgger::new took the placement for the column
 name

---
 src/agg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index b6a1505..be7e99a 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -123,9 +123,9 @@ impl LineAgger {
             if a.eq_ignore_ascii_case("replace") {
                 Self::new_replace2(b, spec)
             } else if a.eq_ignore_ascii_case("prefix") || a.eq_ignore_ascii_case("prepend") {
-                Self::new_prefix2(spec, spec)
+                Self::new_prefix2(b, spec)
             } else if a.eq_ignore_ascii_case("suffix") || a.eq_ignore_ascii_case("append") {
-                Self::new_append2(spec, spec)
+                Self::new_append2(b, spec)
             } else {
                 err!("Unknown placement type '{}' in LineAgg spec '{}'", a, spec)
             }
-- 
2.43.0


From 827e355b215405160a6c3ccd5549f8bcf9543f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 62/92] fix: merge aggregator refused a delimiter as its last
 part

---
 src/agg.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/agg.rs b/src/agg.rs
index be7e99a..7b9d77a 100644
--- a/src/agg.rs
+++ b/src/agg.rs
@@ -742,14 +742,18 @@ impl Merge {
                 if sp.len() < 3 {
                     return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
                 }
-                m.add_one(&sp[0..3])?;
+                let Some(delims) = sp.get(0..3) else {
+                    return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
+                };
+                m.add_one(delims)?;
                 sp = &sp[3..];
-                if !sp.is_empty() {
-                    if sp.as_bytes()[0] != b'.' {
-                        return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
-                    }
-                    sp = &sp[1..];
+                if sp.is_empty() {
+                    break;
+                }
+                if sp.as_bytes()[0] != b'.' {
+                    return err!("Merge Delim Spec must be three bytes, e.g. 'D.,'");
                 }
+                sp = &sp[1..];
             }
             if let Some((a, b)) = sp.split_once('.') {
                 m.add_one(a)?;
-- 
2.43.0


From 63bbc4daca6d0207d97ff1c4b20affb2371e5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 63/92] fix: uniq by whole line saw no columns to aggregate

---
 src/bin/cdx/uniq_main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 88822ac..252b159 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -229,7 +229,8 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         return Ok(());
     }
 
-    f.do_split(comp.need_split());
+    let pick_line = count.which == Which::Min || count.which == Which::Max;
+    f.do_split(comp.need_split() || !agg.is_empty() || (pick_line && count.comp.need_split()));
     let mut matches = 1;
     if !agg.is_empty() {
         agg.add(f.curr_line());
-- 
2.43.0


From 1b90515d66fcc8248d51203a1f54ad39ba95d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:04 +0000
Subject: [PATCH 64/92] fix: uniq --agg-help panicked

---
 src/bin/cdx/uniq_main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/cdx/uniq_main.rs b/src/bin/cdx/uniq_main.rs
index 252b159..c8495c6 100644
--- a/src/bin/cdx/uniq_main.rs
+++ b/src/bin/cdx/uniq_main.rs
@@ -1,4 +1,5 @@
 use crate::prelude::*;
+use cdx::agg::AggMaker;
 use cdx::comp::{CompMaker, LineComp};
 use cdx::prelude::*;
 
@@ -182,6 +183,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             agg.push_append(&x.value)?;
         } else if x.name == "agg-pre" {
             agg.push_prefix(&x.value)?;
+        } else if x.name == "agg-help" {
+            AggMaker::help();
+            return Ok(());
         } else {
             unreachable!();
         }
-- 
2.43.0


From 3831719be720277fab7ebd18a59e6056c4d3ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:08 +0000
Subject: [PATCH 65/92] fix: transpose of a file with only a header added a
 column

---
 src/transpose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index a9d4daf..f1ef405 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -11,7 +11,7 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut data = Vec::new();
     let mut lines = 0;
-    while lines < max_lines {
+    while lines < max_lines && !f.is_done() {
         data.push(f.curr().clone());
         lines += 1;
         if f.getline()? {
-- 
2.43.0


From afe1b8d8294ea713231ad5d3a432d6153405a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:08 +0000
Subject: [PATCH 66/92] fix: tabs panicked on a line with more columns than the
 first, or a narrow screen

---
 src/tabs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tabs.rs b/src/tabs.rs
index dd64fc7..2519862 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -85,13 +85,16 @@ pub fn show(file: &str, screen: &Rect, text: &TextFileMode) -> Result<()> {
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
@@ -156,13 +159,16 @@ pub fn show2(file: &str, screen: &Rect, w: &mut Vec<String>, text: &TextFileMode
     for x in &lines {
         for (i, c) in x.iter().enumerate() {
             let width = UnicodeWidthStr::width(c);
+            if i >= sizes.len() {
+                sizes.push(0);
+            }
             if sizes[i] < width {
                 sizes[i] = width;
             }
         }
     }
     let mut total: usize = sizes.iter().sum();
-    let target = screen.width - sizes.len();
+    let target = screen.width.saturating_sub(sizes.len());
     while total > target {
         dec_max(&mut sizes);
         total = sizes.iter().sum();
-- 
2.43.0


From 91f27b8f7a2db8d918fa34e2fdfe5eaf28ee8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 67/92] fix: CompareOp::line_ok compared the wrong way around

---
 src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3c6ff9c..7dc6048 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2154,7 +2154,7 @@ impl CompareOp {
         comp: &mut LineCompList,
         line_num: usize,
     ) -> bool {
-        if !self.invert().line_ok(line, comp) {
+        if !self.line_ok(line, comp) {
             eprint!("Line {line_num} : ");
             prerr_n(&[&line.line]);
             eprint!("should have been {self:?} ");
@@ -2167,8 +2167,9 @@ impl CompareOp {
     }
     /// return (line OP value)
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> bool {
+        // comp_self_cols orders the value relative to the line
         let o = comp.comp_self_cols(line);
-        self.ord_ok(o)
+        self.invert().ord_ok(o)
     }
     /// does Ordering satisfy `CompareOp`
     #[must_use]
-- 
2.43.0


From 23f4d7cca50129251aa9e933115dbfcbf9235818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 68/92] fix: verify --first and --last ignored the second half
 of a range

---
 src/util.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 7dc6048..9d6238b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2319,7 +2319,7 @@ impl CheckLine {
         self.val2 = if r.val2.is_none() {
             None
         } else {
-            Some(r.op2.unwrap().to_owned())
+            Some(r.val2.unwrap().to_owned())
         };
         Ok(())
     }
@@ -2335,7 +2335,16 @@ impl CheckLine {
         line_num: usize,
     ) -> Result<bool> {
         comp.set(self.val.as_bytes(), b',')?;
-        Ok(self.op.line_ok_verbose(line, comp, line_num))
+        if !self.op.line_ok_verbose(line, comp, line_num) {
+            return Ok(false);
+        }
+        match self.op2 {
+            None => Ok(true),
+            Some(o) => {
+                comp.set(self.val2.as_ref().unwrap().as_bytes(), b',')?;
+                Ok(o.line_ok_verbose(line, comp, line_num))
+            }
+        }
     }
     /// compare line OP text, return true if match
     pub fn line_ok(&self, line: &TextLine, comp: &mut LineCompList) -> Result<bool> {
-- 
2.43.0


From c981841dee0be1e2c8602a02ca594d561f33de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 69/92] fix: verify --first and --last read <= as < and a value
 starting with =

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 9d6238b..3c6f617 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -2198,8 +2198,8 @@ impl<'a> RangeSpec<'a> {
     fn new(spec: &'a str) -> Result<Self> {
         lazy_static! {
             static ref RE1: Regex =
-                Regex::new("^(<|>|<=|>=|==|!=)([^<>!=]+)(<|>|<=|>=|==|!=)(.+)$").unwrap();
-            static ref RE2: Regex = Regex::new("^(<|>|<=|>=|==|!=)(.+)$").unwrap();
+                Regex::new("^(<=|>=|==|!=|<|>)([^<>!=]+)(<=|>=|==|!=|<|>)(.+)$").unwrap();
+            static ref RE2: Regex = Regex::new("^(<=|>=|==|!=|<|>)(.+)$").unwrap();
             static ref RE3: Regex =
                 Regex::new("^(LT|GT|LE|GE|EQ|NE),([^,]+),(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
             static ref RE4: Regex = Regex::new("^(LT|GT|LE|GE|EQ|NE),(.+)$").unwrap();
-- 
2.43.0


From 77349faa9299db879ad0c3c9598423fa987fb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 70/92] fix: a whole line never equaled a given value, because
 of its newline

---
 src/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 1534ee7..4d98026 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -461,11 +461,13 @@ impl LineCompare for LineCompWhole {
     }
 
     fn comp_self_cols(&mut self, right: &TextLine) -> Ordering {
-        self.comp.comp_self(right.line())
+        let line = right.line();
+        self.comp.comp_self(line.strip_suffix(b"\n").unwrap_or(line))
     }
 
     fn equal_self_cols(&mut self, right: &TextLine) -> bool {
-        self.comp.equal_self(right.line())
+        let line = right.line();
+        self.comp.equal_self(line.strip_suffix(b"\n").unwrap_or(line))
     }
 
     fn comp_self_line(&mut self, right: &[u8], _delim: u8) -> Ordering {
-- 
2.43.0


From e91c1c1e91c5656ca7f9d42dbc106ce2cf52bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:07 +0000
Subject: [PATCH 71/92] fix: range matcher ignored a reversed comparison

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3c6f617..faff2fd 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,7 +1,7 @@
 //! Misc utility stuff
 //#![allow(dead_code)]
 use crate::column::ColumnHeader;
-use crate::comp::{CompMaker, Compare};
+use crate::comp::{Comp, CompMaker};
 use crate::prelude::*;
 use anyhow;
 use flate2::read::MultiGzDecoder;
@@ -2368,9 +2368,9 @@ impl CheckLine {
 /// A compare op with some text to compare against
 pub struct CheckBuff {
     op: CompareOp,
-    val: Box<dyn Compare>,
+    val: Comp,
     op2: Option<CompareOp>,
-    val2: Option<Box<dyn Compare>>,
+    val2: Option<Comp>,
 }
 impl fmt::Debug for CheckBuff {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -2389,7 +2389,7 @@ impl CheckBuff {
         Ok(Self {
             op: r.op1.parse::<CompareOp>()?,
             val: {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val1.as_bytes());
                 c
             },
@@ -2401,7 +2401,7 @@ impl CheckBuff {
             val2: if r.val2.is_none() {
                 None
             } else {
-                let mut c = CompMaker::make_comp_box(comp_spec)?;
+                let mut c = CompMaker::make_comp(comp_spec)?;
                 c.set(r.val2.unwrap().as_bytes());
                 Some(c)
             },
-- 
2.43.0


From 91b3ce7fcfe0f8334e147226cb8161a487c00859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:07 +0000
Subject: [PATCH 72/92] fix: comp matcher took the dot after LT for part of the
 column name

---
 src/matcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matcher.rs b/src/matcher.rs
index 8e06592..4c2e542 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -963,6 +963,7 @@ impl CompMatcher {
         let op;
         if let Some(Ok(o)) = op1 {
             pattern = &pattern[2..];
+            pattern = pattern.strip_prefix('.').unwrap_or(pattern);
             op = o;
         } else {
             let op1 = pattern.get(0..1).map(str::parse::<CompareOp>);
-- 
2.43.0


From e3443c0c3e169b8c5d0dd2b4ae59c406b6830b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:22 +0000
Subject: [PATCH 73/92] fix: verify --report and --show-matchers panicked

---
 src/bin/cdx/verify_main.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index bf61abc..1690f47 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -1,7 +1,7 @@
 use crate::prelude::*;
 use cdx::comp::comp_check;
 use cdx::expr;
-use cdx::matcher::Combiner;
+use cdx::matcher::{Combiner, MatchMaker};
 use cdx::prelude::*;
 use cdx::util::CheckLine;
 
@@ -46,9 +46,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             list.push(&x.value)?;
         } else if x.name == "key" {
             comp.add(&x.value)?;
-        } else if x.name == "or" {
-            list.multi = Combiner::Or;
-        } else if x.name == "fail" {
+        } else if x.name == "report" {
             max_fails = x.value.to_usize_whole(x.value.as_bytes(), "max fails")?;
         } else if x.name == "sort" {
             do_sort = true;
@@ -59,6 +57,9 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         } else if x.name == "unique" {
             do_sort = true;
             do_unique = true;
+        } else if x.name == "show-matchers" {
+            MatchMaker::help();
+            return Ok(());
         } else if x.name == "show-const" {
             expr::show_const();
             return Ok(());
-- 
2.43.0


From 832baafc8e67172c028d0f81e50182f22a316325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:22 +0000
Subject: [PATCH 74/92] fix: verify accepted a file whose last line fails

---
 src/bin/cdx/verify_main.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bin/cdx/verify_main.rs b/src/bin/cdx/verify_main.rs
index 1690f47..808dcbc 100644
--- a/src/bin/cdx/verify_main.rs
+++ b/src/bin/cdx/verify_main.rs
@@ -110,7 +110,17 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !list.ok_verbose(f.curr_line(), f.line_number(), x) {
                 did_fail = true;
             }
-            if f.getline()? {
+            let done = f.getline()?;
+            if do_sort && !done {
+                did_fail = did_fail || comp_check(&f, &mut comp, do_unique);
+            }
+            if did_fail {
+                fails += 1;
+                if fails >= max_fails {
+                    break;
+                }
+            }
+            if done {
                 if last.is_some()
                     && !last.as_ref().unwrap().line_ok_verbose(
                         f.prev_line(1),
@@ -122,15 +132,6 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                 }
                 break;
             }
-            if do_sort {
-                did_fail = did_fail || comp_check(&f, &mut comp, do_unique);
-            }
-            if did_fail {
-                fails += 1;
-                if fails >= max_fails {
-                    break;
-                }
-            }
         }
         if fails > 0 {
             return cdx_err(CdxError::Silent);
-- 
2.43.0


From 9db7ad2096dc3c169e11ff5d8ca8e045831771ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 75/92] fix: an output file that existed kept its old end

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index faff2fd..ea14cc1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1215,7 +1215,7 @@ pub fn get_writer(name: &str) -> Result<Outfile> {
         } else if name == "--" {
             Box::new(io::stderr())
         } else {
-            Box::new(fs::OpenOptions::new().write(true).create(true).open(name)?)
+            Box::new(fs::File::create(name)?)
         }
     };
     Ok(Outfile::new(io::BufWriter::new(inner), name))
-- 
2.43.0


From e35139d5186e8be22925efcb00b4fc5d21854bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 76/92] fix: join of three files wrote the first line of the
 third everywhere

---
 src/join.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index 117ec59..a237d6a 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -165,9 +165,9 @@ impl Joiner {
         })
     }
     fn join(&mut self, config: &JoinConfig) -> Result<()> {
-        if config.infiles.len() < 2 {
+        if config.infiles.len() != 2 {
             return err!(
-                "Join requires at least two input files, {} found",
+                "Join requires exactly two input files, {} found",
                 config.infiles.len()
             );
         }
-- 
2.43.0


From 0ac49e1c8f68761fa9d1b43d60d85ed5909e0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 77/92] fix: sort --check resolves the key's column names in
 each file

---
 src/bin/cdx/sort_main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/cdx/sort_main.rs b/src/bin/cdx/sort_main.rs
index f0d6b3e..192b07d 100644
--- a/src/bin/cdx/sort_main.rs
+++ b/src/bin/cdx/sort_main.rs
@@ -58,6 +58,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if f.is_done() {
                 continue;
             }
+            comp.lookup(&f.names())?;
             loop {
                 if f.getline()? {
                     break;
-- 
2.43.0


From e5677539f30149e792baa40818896d67ca22264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 78/92] fix: a column range with an unclosed parenthesis is
 refused rather than a panic

---
 src/column.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/column.rs b/src/column.rs
index 7bc19d9..a1c9afa 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -921,8 +921,11 @@ impl ColumnSet {
             return err!("Empty Range {}", rng);
         }
         if range.starts_with('(') {
+            let Some(pattern) = range[1..].strip_suffix(')') else {
+                return err!("Malformed Range {}", rng);
+            };
             return Ok(Self::to_outcols(
-                &Self::match_range(fieldnames, &range[1..range.len() - 1])?,
+                &Self::match_range(fieldnames, pattern)?,
                 name,
             ));
         }
-- 
2.43.0


From 62a22849e83ecf057476a4849d3927646e605c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 79/92] fix: a transform that fails is reported as an error by
 cut rather than a panic

---
 src/column.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index a1c9afa..9c58e6e 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1084,12 +1084,12 @@ impl ColumnSet {
         Ok(())
     }
 
-    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> &'a [u8] {
+    fn fetch<'a>(&'a mut self, cols: &'a TextLine, col: usize) -> Result<&'a [u8]> {
         let col = &self.columns[col];
         if let Some(trans) = col.trans {
-            self.trans[trans].trans(cols.get(col.num), cols).unwrap()
+            self.trans[trans].trans(cols.get(col.num), cols)
         } else {
-            cols.get(col.num)
+            Ok(cols.get(col.num))
         }
     }
 
@@ -1106,10 +1106,10 @@ impl ColumnSet {
         if self.columns.is_empty() {
             return Ok(());
         }
-        text.write(w, self.fetch(cols, 0))?;
+        text.write(w, self.fetch(cols, 0)?)?;
         for i in 1..self.columns.len() {
             w.write_all(&[text.delim])?;
-            text.write(w, self.fetch(cols, i))?;
+            text.write(w, self.fetch(cols, i)?)?;
         }
         Ok(())
     }
-- 
2.43.0


From de65300e7687ee1865c58c7682d823da6b156379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 80/92] fix: the random comparison is one consistent random
 order, so that sorting cannot panic

---
 src/comp.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 4d98026..38f8226 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -28,6 +28,8 @@ use crate::num::{fcmp, ulp_to_ulong, Junk, JunkType, JunkVal};
 use crate::prelude::*;
 use crate::util::prerr_n;
 use lazy_static::lazy_static;
+use std::collections::hash_map::RandomState;
+use std::hash::{BuildHasher, Hasher};
 use std::sync::Mutex;
 
 /// method of comparing two slices
@@ -1468,34 +1470,42 @@ impl LineCompList {
     }
 }
 
+/// One random order, used for every comparison, because sorting needs a consistent order
 #[derive(Default, Debug)]
-struct CompareRandom {}
+struct CompareRandom {
+    order: RandomState,
+    value: u64,
+}
 impl CompareRandom {
     fn new() -> Self {
         Self::default()
     }
-    fn ord(&self) -> Ordering {
-        if fastrand::bool() {
-            Ordering::Less
-        } else {
-            Ordering::Greater
-        }
+    /// position of this value in the random order
+    fn rank(&self, value: &[u8]) -> u64 {
+        let mut h = self.order.build_hasher();
+        h.write(value);
+        h.finish()
     }
 }
 impl Compare for CompareRandom {
-    fn comp(&self, _left: &[u8], _right: &[u8]) -> Ordering {
-        self.ord()
+    fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
+        self.rank(left).cmp(&self.rank(right))
     }
-    fn equal(&self, _left: &[u8], _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn equal(&self, left: &[u8], right: &[u8]) -> bool {
+        self.rank(left) == self.rank(right)
     }
-    fn fill_cache(&self, _item: &mut Item, _value: &[u8]) {}
-    fn set(&mut self, _value: &[u8]) {}
-    fn comp_self(&self, _right: &[u8]) -> Ordering {
-        self.ord()
+    fn fill_cache(&self, item: &mut Item, value: &[u8]) {
+        item.cache = self.rank(value);
+        item.set_complete();
     }
-    fn equal_self(&self, _right: &[u8]) -> bool {
-        fastrand::bool()
+    fn set(&mut self, value: &[u8]) {
+        self.value = self.rank(value);
+    }
+    fn comp_self(&self, right: &[u8]) -> Ordering {
+        self.value.cmp(&self.rank(right))
+    }
+    fn equal_self(&self, right: &[u8]) -> bool {
+        self.value == self.rank(right)
     }
 }
 
-- 
2.43.0


From 66b701609391f8ba82cf7853616ada60c45dfc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 81/92] fix: filegen refuses decimal, normal and count
 specifications that are out of range rather than panicking

---
 src/textgen.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/textgen.rs b/src/textgen.rs
index c314f7a..30d57ed 100644
--- a/src/textgen.rs
+++ b/src/textgen.rs
@@ -28,6 +28,14 @@ struct DecimalGen {
     post_size: usize,
 }
 impl DecimalGen {
+    // ten to this power
+    fn power(digits: usize) -> Result<usize> {
+        let ten: usize = 10;
+        match ten.checked_pow(digits as u32) {
+            Some(x) => Ok(x),
+            None => err!("Too many digits for decimal generator : {}", digits),
+        }
+    }
     // [-]NNN[.NNNN]
     fn new(spec: &str) -> Result<Self> {
         let mut sign = false;
@@ -42,11 +50,11 @@ impl DecimalGen {
             }
             if !spec.is_empty() {
                 if let Some((a, b)) = spec.split_once('.') {
-                    pre = 10_usize.pow(a.len() as u32);
+                    pre = Self::power(a.len())?;
                     post_size = b.len();
-                    post = 10_usize.pow(post_size as u32);
+                    post = Self::power(post_size)?;
                 } else {
-                    pre = 10_usize.pow(spec.len() as u32);
+                    pre = Self::power(spec.len())?;
                 }
             }
         }
@@ -141,9 +149,12 @@ impl NormalDistGen {
                 }
             }
         }
+        let Ok(norm) = Normal::new(mean, dev) else {
+            return err!("Not a normal distribution : '{}'", spec);
+        };
         Ok(Self {
             fmt,
-            norm: Normal::new(mean, dev).unwrap(),
+            norm,
         })
     }
 }
@@ -185,7 +196,10 @@ impl CountGen {
 }
 impl Gen for CountGen {
     fn write(&mut self, w: &mut dyn Write, loc: &Where) -> Result<()> {
-        write!(w, "{}", loc.line as isize + self.start - 1)?;
+        match self.start.checked_add_unsigned(loc.line - 1) {
+            Some(x) => write!(w, "{x}")?,
+            None => return err!("Count generator overflowed"),
+        }
         Ok(())
     }
 }
-- 
2.43.0


From bca27bccb501d263fba992553dd33b90401ca27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:11 +0000
Subject: [PATCH 82/92] fix: tabs copes with a screen of no rows or too few for
 its files

---
 src/bin/cdx/tabs_main.rs | 4 ++--
 src/tabs.rs              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/cdx/tabs_main.rs b/src/bin/cdx/tabs_main.rs
index ae42ba1..6d305fd 100644
--- a/src/bin/cdx/tabs_main.rs
+++ b/src/bin/cdx/tabs_main.rs
@@ -41,7 +41,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     } else {
         let base_rect = tabs::Rect::from_screen();
-        let mut lines_left = base_rect.height - (2 * files.len()) + 1;
+        let mut lines_left = (base_rect.height + 1).saturating_sub(2 * files.len());
         let mut files_left = files.len();
         for x in &files {
             let mut v = Vec::new();
@@ -51,7 +51,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &v {
                 println!("{}", x);
             }
-            lines_left -= v.len();
+            lines_left = lines_left.saturating_sub(v.len());
             files_left -= 1;
             if files_left > 0 {
                 println!("{:-<1$}", "", real);
diff --git a/src/tabs.rs b/src/tabs.rs
index 2519862..f2211f4 100644
--- a/src/tabs.rs
+++ b/src/tabs.rs
@@ -30,7 +30,7 @@ impl Rect {
         if unsafe { libc::ioctl(2, libc::TIOCGWINSZ, &mut ws) } >= 0 {
             Self {
                 width: ws.ws_col as usize,
-                height: (ws.ws_row - 1) as usize,
+                height: ws.ws_row.saturating_sub(1) as usize,
             }
         } else {
             Self {
-- 
2.43.0


From cd35f86088f6709d70ce80f4f817495fe8ddbf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:35 +0000
Subject: [PATCH 83/92] fix: paste puts the delimiter of the files between them

---
 src/bin/cdx/paste_main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/cdx/paste_main.rs b/src/bin/cdx/paste_main.rs
index e5d132b..61c563f 100644
--- a/src/bin/cdx/paste_main.rs
+++ b/src/bin/cdx/paste_main.rs
@@ -90,6 +90,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         curr_cols += f.header().len();
         fds.push(f);
     }
+    let delim = settings.text_out().delim;
     let mut w = get_writer("-")?;
     header.check_rename()?;
     if do_header {
@@ -128,7 +129,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let mut need_delim = false;
         for (i, f) in fds.iter_mut().enumerate() {
             if need_delim {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             need_delim = true;
             if f.is_done() {
@@ -138,7 +139,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
                     let mut nd = false;
                     for j in rngs[i].start..rngs[i].end {
                         if nd {
-                            w.write_all(b"\t")?;
+                            w.write_all(&[delim])?;
                         }
                         nd = true;
                         w.write_all(dflt.get(j).as_bytes())?;
-- 
2.43.0


From 3fe92db92aa5894bb1fcbdad22c5163a32c8bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:13 +0000
Subject: [PATCH 84/92] fix: transpose writes the delimiter and the quoting of
 its input

---
 src/transpose.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transpose.rs b/src/transpose.rs
index f1ef405..d07bbc2 100644
--- a/src/transpose.rs
+++ b/src/transpose.rs
@@ -20,7 +20,8 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
     }
     let mut w = get_writer("-")?;
     if head {
-        w.write_all(b" CDX\t")?;
+        w.write_all(b" CDX")?;
+        w.write_all(&[text.delim])?;
     }
     for i in 0..f.header().len() {
         let mut need_tab = if f.has_header() {
@@ -31,10 +32,10 @@ pub fn transpose(file: &str, head: bool, max_lines: usize, text: &TextFileMode)
         };
         for x in &data {
             if need_tab {
-                w.write_all(b"\t")?;
+                w.write_all(&[text.delim])?;
             }
             need_tab = true;
-            w.write_all(&x[i])?;
+            text.write(&mut w.0, &x[i])?;
         }
         w.write_all(b"\n")?;
     }
-- 
2.43.0


From aef45192e485ed52f3309a8cab31e39eb612fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:14 +0000
Subject: [PATCH 85/92] fix: wc writes the delimiter it was asked for
 everywhere

---
 src/bin/cdx/wc_main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index c3b5bc5..17d53ab 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -78,6 +78,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
     }
     let nada = TextLine::new();
+    let delim = settings.text_out().delim;
     let mut w = get_writer("-")?;
     let mut first_file = true;
     let mut totals = Vec::new();
@@ -149,11 +150,11 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             for x in &aggs {
                 if show_file_name != Tri::No {
                     w.write_all(x.name.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 for i in 0..x.agg.len() {
                     if i != 0 {
-                        w.write_all(b"\t")?;
+                        w.write_all(&[delim])?;
                     }
                     x.agg.get(i).agg.borrow_mut().result(&mut w.0, fmt)?;
                 }
@@ -222,7 +223,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
             if !total_only {
                 if show_file {
                     w.write_all(x.as_bytes())?;
-                    w.write_all(b"\t")?;
+                    w.write_all(&[delim])?;
                 }
                 c_write.write(&mut w.0, &nada)?;
             }
@@ -235,11 +236,12 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
     }
     if do_totals {
         if show_file {
-            w.write_all(b"totals\t")?;
+            w.write_all(b"totals")?;
+            w.write_all(&[delim])?;
         }
         for (i, t) in totals.iter().enumerate() {
             if i != 0 {
-                w.write_all(b"\t")?;
+                w.write_all(&[delim])?;
             }
             fmt.print(*t, &mut w.0)?;
         }
-- 
2.43.0


From 620018b12f9da975f6ea4e5607636e65157ad045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:26 +0000
Subject: [PATCH 86/92] fix: wc -C labels header, rows and totals alike

---
 src/bin/cdx/wc_main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bin/cdx/wc_main.rs b/src/bin/cdx/wc_main.rs
index 17d53ab..5c07099 100644
--- a/src/bin/cdx/wc_main.rs
+++ b/src/bin/cdx/wc_main.rs
@@ -124,7 +124,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         show_file = match show_file_name {
             Tri::Yes => true,
             Tri::No => false,
-            Tri::Maybe => aggs.len() > 1 && !total_only,
+            Tri::Maybe => !total_only,
         };
         do_totals = match show_totals {
             Tri::Yes => true,
@@ -134,11 +134,13 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         let do_header = match show_header {
             Tri::Yes => true,
             Tri::No => false,
-            Tri::Maybe => agg.len() > 1 || show_file,
+            Tri::Maybe => {
+                agg.len() > 1 || show_file_name == Tri::Yes || (show_file && aggs.len() > 1)
+            }
         };
         if do_header {
             let mut ch = ColumnHeader::new();
-            if show_file_name != Tri::No {
+            if show_file {
                 ch.push("column")?;
             }
             let mut c_write = Writer::new(settings.text_out());
@@ -148,7 +150,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         }
         if !total_only {
             for x in &aggs {
-                if show_file_name != Tri::No {
+                if show_file {
                     w.write_all(x.name.as_bytes())?;
                     w.write_all(&[delim])?;
                 }
-- 
2.43.0


From bc235d4f45437067ae041c5ac6855dbec06da45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 87/92] fix: cgrep -l writes the delimiter of the output after
 the location

---
 src/bin/cdx/cgrep_main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/cdx/cgrep_main.rs b/src/bin/cdx/cgrep_main.rs
index 0a9ee7b..baf8553 100644
--- a/src/bin/cdx/cgrep_main.rs
+++ b/src/bin/cdx/cgrep_main.rs
@@ -61,7 +61,7 @@ pub fn main(argv: &[String], settings: &mut Settings) -> Result<()> {
         loop {
             if list.ok(f.curr_line()) ^ reverse {
                 // write previous lines of context if necessary
-                loc.write_data(&mut w.0, b'\t', f.loc())?;
+                loc.write_data(&mut w.0, settings.text_out().delim, f.loc())?;
                 f.write_curr(&mut w.0)?;
             } else {
                 // write more lines of context if necessary
-- 
2.43.0


From 5a51b0123184e001a3994eadbd51b48801c4a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:53 +0000
Subject: [PATCH 88/92] fix: ColumnSet::write reports a missing first column
 rather than panicking

---
 src/column.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 9c58e6e..7c5ff2f 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -1040,26 +1040,20 @@ impl ColumnSet {
         if !self.did_lookup {
             return cdx_err(CdxError::NeedLookup);
         }
-        let mut iter = self.columns.iter();
-        match iter.next() {
-            None => {}
-            Some(first) => {
-                w.write_all(cols[first.num].as_bytes())?;
-
-                for x in iter {
-                    w.write_all(delim.as_bytes())?;
-                    if x.num < cols.len() {
-                        w.write_all(cols[x.num].as_bytes())?;
-                    } else {
-                        return err!(
-                            "Line has only {} columns, but column {} was requested.",
-                            cols.len(),
-                            x.num + 1
-                        );
-                    }
-                }
+        for (i, x) in self.columns.iter().enumerate() {
+            if i > 0 {
+                w.write_all(delim.as_bytes())?;
             }
-        };
+            if x.num < cols.len() {
+                w.write_all(cols[x.num].as_bytes())?;
+            } else {
+                return err!(
+                    "Line has only {} columns, but column {} was requested.",
+                    cols.len(),
+                    x.num + 1
+                );
+            }
+        }
         w.write_all(&[b'\n'])?;
         Ok(())
     }
-- 
2.43.0


From 09178c367cf8f2518169047a3b866d0e4a369215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:09 +0000
Subject: [PATCH 89/92] fix: float comparison honours the strict, trail and low
 modifiers

---
 src/comp.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/comp.rs b/src/comp.rs
index 38f8226..0f181dc 100644
--- a/src/comp.rs
+++ b/src/comp.rs
@@ -895,7 +895,7 @@ impl CompMaker {
         Self::do_push(
             "float",
             "Convert to floating point, and sort the result.",
-            |_p| Ok(Box::new(Comparef64::new())),
+            |p| Ok(Box::new(Comparef64::new(p.junk))),
         )?;
         Self::do_push("numeric", "Convert NNN.nnn of arbitrary length.", |_p| {
             Ok(Box::new(CompareNumeric::new()))
@@ -1541,11 +1541,12 @@ struct CompareEqual {}
 #[derive(Default, Debug)]
 struct Comparef64 {
     value: f64,
+    junk: Junk,
 }
 
 impl Comparef64 {
-    const fn new() -> Self {
-        Self { value: 0.0 }
+    const fn new(junk: Junk) -> Self {
+        Self { value: 0.0, junk }
     }
 }
 
@@ -1700,23 +1701,23 @@ impl Compare for CompareEqual {
 
 impl Compare for Comparef64 {
     fn comp(&self, left: &[u8], right: &[u8]) -> Ordering {
-        fcmp(left.to_f64_lossy(), right.to_f64_lossy())
+        fcmp(left.to_f64_junk(&self.junk), right.to_f64_junk(&self.junk))
     }
     fn equal(&self, left: &[u8], right: &[u8]) -> bool {
-        fcmp(left.to_f64_lossy(), right.to_f64_lossy()) == Ordering::Equal
+        fcmp(left.to_f64_junk(&self.junk), right.to_f64_junk(&self.junk)) == Ordering::Equal
     }
     fn fill_cache(&self, item: &mut Item, value: &[u8]) {
-        item.cache = ulp_to_ulong(value.to_f64_lossy());
+        item.cache = ulp_to_ulong(value.to_f64_junk(&self.junk));
         item.set_complete();
     }
     fn set(&mut self, value: &[u8]) {
-        self.value = value.to_f64_lossy();
+        self.value = value.to_f64_junk(&self.junk);
     }
     fn comp_self(&self, right: &[u8]) -> Ordering {
-        fcmp(self.value, right.to_f64_lossy())
+        fcmp(self.value, right.to_f64_junk(&self.junk))
     }
     fn equal_self(&self, right: &[u8]) -> bool {
-        fcmp(self.value, right.to_f64_lossy()) == Ordering::Equal
+        fcmp(self.value, right.to_f64_junk(&self.junk)) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 6533e6efe960af15efcfea37cb393225eb56f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:09 +0000
Subject: [PATCH 90/92] fix: a default for a column beyond the last no longer
 panics

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index 7c5ff2f..ce6fa07 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -458,8 +458,10 @@ impl ScopedValues {
             x.lookup(fieldnames)?;
             for i in 0..x.cols.columns.len() {
                 let j = x.cols.columns[i].num;
-                self.strings[j].clone_from(&x.value);
-                self.has_value[j] = true;
+                if j < self.strings.len() {
+                    self.strings[j].clone_from(&x.value);
+                    self.has_value[j] = true;
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 96cb7e897976453fd2d3b30eabce8fd062c4366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:09 +0000
Subject: [PATCH 91/92] fix: ScopedValues make_ints and make_floats no longer
 panic

---
 src/column.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/column.rs b/src/column.rs
index ce6fa07..362d546 100644
--- a/src/column.rs
+++ b/src/column.rs
@@ -470,9 +470,10 @@ impl ScopedValues {
     pub fn make_ints(&mut self) -> Result<()> {
         self.ints.clear();
         for i in 0..self.strings.len() {
-            self.ints[i] = self
+            let val = self
                 .get(i)
                 .to_isize_whole(self.get(i).as_bytes(), "number")?;
+            self.ints.push(val);
         }
         Ok(())
     }
@@ -480,7 +481,8 @@ impl ScopedValues {
     pub fn make_floats(&mut self) -> Result<()> {
         self.floats.clear();
         for i in 0..self.strings.len() {
-            self.floats[i] = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            let val = self.get(i).to_f64_whole(self.get(i).as_bytes(), "float")?;
+            self.floats.push(val);
         }
         Ok(())
     }
-- 
2.43.0


From f5ea3348fee4fa85a50192c939a033ce4ca584e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:14 +0000
Subject: [PATCH 92/92] fix: files left by a failed test no longer fail the
 next test

---
 src/tooltest.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tooltest.rs b/src/tooltest.rs
index 5a2b52f..0ab3310 100644
--- a/src/tooltest.rs
+++ b/src/tooltest.rs
@@ -449,7 +449,14 @@ impl Config {
     fn do_run(&mut self, file: &str) -> Result<bool> {
         let mut t = Test::new();
         t.open(file)?;
-        t.run(self)
+        let res = t.run(self);
+        if self.tmpdir.is_empty() {
+            // whatever a failed test left behind must not reach the next one
+            for x in read_dir(self.tmp.path())? {
+                let _ = std::fs::remove_file(self.tmp.path().join(x));
+            }
+        }
+        res
     }
     /// run
     pub fn run(&mut self, file: &str) {
-- 
2.43.0

