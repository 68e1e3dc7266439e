From 5a3fc559b325bb062ba7d4cdb401ce2ba45366ec Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 15:52:57 +0000
Subject: [PATCH 1/8] fix: return Error::Memory instead of aborting when a
 result cannot be allocated

---
 src/algos.rs      | 11 ++++++-----
 src/base_cells.rs |  1 +
 src/error.rs      |  6 ++++++
 src/h3_index.rs   |  1 +
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/algos.rs b/src/algos.rs
index 6dc9efe..8ac19bc 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -366,13 +366,12 @@ pub fn gridDiskDistances(origin: H3Index, k: u32) -> Result<Vec<(H3Index, u32)>,
 
     // Fast algo failed, fall back to slower, correct algo
     let mut out: Vec<(H3Index, u32)> = Vec::new();
+    out.try_reserve_exact(maxIdx)?;
     out.resize(maxIdx, (0, 0));
 
     _gridDiskDistancesInternal(origin, k, &mut out, maxIdx, 0)?;
-    Ok(out
-        .into_iter()
-        .filter(|(h3index, _distance)| *h3index != 0)
-        .collect())
+    out.retain(|(h3index, _distance)| *h3index != 0);
+    Ok(out)
 }
 
 /**
@@ -691,6 +690,7 @@ pub fn gridDiskDistancesUnsafe(
     let mut out: Vec<(H3Index, u32)> = Vec::new();
 
     // k must be >= 0, so origin is always needed
+    out.try_reserve(1)?;
     out.push((origin, 0));
 
     if isPentagon(origin) {
@@ -721,6 +721,7 @@ pub fn gridDiskDistancesUnsafe(
         }
 
         origin = h3NeighborRotations(origin, DIRECTIONS[direction as usize], &mut rotations)?;
+        out.try_reserve(1)?;
         out.push((origin, ring));
         //distances.push(ring);
         //idx += 1;
@@ -760,7 +761,7 @@ pub fn gridDiskDistancesUnsafe(
  */
 pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error> {
     let mut out = Vec::<H3Index>::new();
-    out.reserve_exact(6 * k as usize);
+    out.try_reserve_exact(if k == 0 { 1 } else { 6 * k as usize })?;
 
     // Short-circuit on 'identity' ring
     if k == 0 {
diff --git a/src/base_cells.rs b/src/base_cells.rs
index 79f6aad..23ddd7a 100644
--- a/src/base_cells.rs
+++ b/src/base_cells.rs
@@ -4123,6 +4123,7 @@ pub fn res0CellCount() -> i32 {
  */
 pub fn getRes0Cells() -> Result<Vec<H3Index>, Error> {
     let mut out = Vec::<H3Index>::new();
+    out.try_reserve_exact(NUM_BASE_CELLS as usize)?;
     out.resize(NUM_BASE_CELLS as usize, 0);
     for bc in 0..(NUM_BASE_CELLS as usize) {
         //(int bc = 0; bc < NUM_BASE_CELLS; bc++) {
diff --git a/src/error.rs b/src/error.rs
index 670d704..23b6139 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -47,3 +47,9 @@ pub enum Error {
     #[error("Mode or flags argument was not valid")]
     OptionInvalid, // 15
 }
+
+impl From<std::collections::TryReserveError> for Error {
+    fn from(_: std::collections::TryReserveError) -> Self {
+        Error::Memory
+    }
+}
diff --git a/src/h3_index.rs b/src/h3_index.rs
index 8e03200..9b9b944 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -307,6 +307,7 @@ pub fn cellToChildren(h: H3Index, childRes: i32) -> Result<Vec<H3Index>, Error>
     for child in IterCellsChildren::from_parent(h, childRes) {
         // (IterCellsChildren iter = iterInitParent(h, childRes); iter.h;
         //iterStepChild(&iter)) {
+        children.try_reserve(1)?;
         children.push(child);
     }
     return Ok(children);
-- 
2.43.0


From 936b31aa783ac08e63b01c34770b97341bbf9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 2/8] fix: count children in 64 bits so gaps of 12 to 15
 resolutions do not overflow

---
 src/h3_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h3_index.rs b/src/h3_index.rs
index 9b9b944..be02fcb 100644
--- a/src/h3_index.rs
+++ b/src/h3_index.rs
@@ -287,9 +287,9 @@ pub fn cellToChildrenSize(h: H3Index, childRes: i32) -> Result<i64, Error> {
     let n = (childRes - H3_GET_RESOLUTION(h)) as u32;
 
     if isPentagon(h) {
-        return Ok((1 + 5 * ((7i32.pow(n) - 1) / 6)) as i64);
+        return Ok(1 + 5 * ((7i64.pow(n) - 1) / 6));
     } else {
-        return Ok(7i32.pow(n) as i64);
+        return Ok(7i64.pow(n));
     }
 }
 
-- 
2.43.0


From b98e540f244315ef193d03e31f83af982ad1e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 3/8] fix: reduce the rotation count modulo 6 before using it

---
 src/algos.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 8ac19bc..3dd2e26 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -461,6 +461,9 @@ pub fn h3NeighborRotations(
     if dir < Direction::CenterDigit || dir >= Direction::InvalidDigit {
         return Err(Error::Failed);
     }
+    // Reduce first: protects the additions below against overflow and the
+    // loop against an unbounded number of turns
+    *rotations %= 6;
     for _i in 0..*rotations {
         dir = _rotate60ccw(dir);
     }
-- 
2.43.0


From 4637f390e712ceae17dbcd7b65e38fb02bf1611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 4/8] fix: do not overflow when stepping an all-ones index

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 7c3ca42..0c4a231 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -57,7 +57,7 @@ impl IterCellsChildren {
     pub fn _incrementResDigit(&mut self, res: i32) {
         let mut val: H3Index = 1;
         val <<= H3_PER_DIGIT_OFFSET * (MAX_H3_RES - res);
-        self.h += val;
+        self.h = self.h.wrapping_add(val);
     }
 }
 
-- 
2.43.0


From f89974564c4b9804c4dc291bf303e279a1dc4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 5/8] fix: saturate maxGridDiskSize so an oversized disk
 reports Error::Memory

---
 src/algos.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algos.rs b/src/algos.rs
index 3dd2e26..0bad76d 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -335,7 +335,8 @@ const NEW_ADJUSTMENT_III: [[Direction; 7]; 7] = [
  * @param out   size in indexes
  */
 pub fn maxGridDiskSize(k: u32) -> usize {
-    return (3 * k as i64 * (k as i64 + 1) + 1) as usize;
+    let k = k as u128;
+    return usize::try_from(3 * k * (k + 1) + 1).unwrap_or(usize::MAX);
 }
 
 /**
-- 
2.43.0


From 6a73dc0368c07dd084209bdb74edad249fe53141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 6/8] fix: report a pentagon from hollow rings that enclose
 half of the pentagons or more

---
 src/algos.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algos.rs b/src/algos.rs
index 0bad76d..9778f66 100644
--- a/src/algos.rs
+++ b/src/algos.rs
@@ -773,6 +773,15 @@ pub fn gridRingUnsafe(mut origin: H3Index, k: u32) -> Result<Vec<H3Index>, Error
         return Ok(out);
     }
 
+    // A ring around half of the pentagons or more closes again, so the check at
+    // the end cannot see them. No pentagon-free disk covers as much as a sixth
+    // of the globe, and no disk below that size holds half of the pentagons.
+    let numCells: u64 = 2 + 120 * 7u64.pow(H3_GET_RESOLUTION(origin) as u32);
+    let diskSize: u128 = 3 * k as u128 * (k as u128 + 1) + 1;
+    if diskSize > (numCells / 6) as u128 {
+        return Err(Error::Pentagon);
+    }
+
     // Number of 60 degree ccw rotations to perform on the direction (based on
     // which faces have been crossed.)
     let mut rotations: i32 = 0;
-- 
2.43.0


From 9be0cbe422f3ba13c2220484f37e356691ca4586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 7/8] fix: constrainLat and constrainLng return for angles of
 any size

A coordinate damaged to a large or infinite value made the loops run for
ever, because the turn taken off was lost to rounding.
---
 src/lat_lng.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index 89b4701..eb9753e 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -91,6 +91,11 @@ pub fn _setGeoRads(p: &mut LatLng, lat_rads: f64, lng_rads: f64) {
  * @return The corrected lat value
  */
 pub fn constrainLat(mut lat: f64) -> f64 {
+    if lat > FRAC_PI_2 {
+        // whole half turns at once: taken off one by one they are lost to
+        // rounding once lat is large, and the loop would never end
+        lat = lat % PI;
+    }
     while lat > FRAC_PI_2 {
         lat = lat - PI;
     }
@@ -104,6 +109,9 @@ pub fn constrainLat(mut lat: f64) -> f64 {
  * @return The corrected lng value
  */
 pub fn constrainLng(mut lng: f64) -> f64 {
+    // whole turns at once: taken off one by one they are lost to rounding
+    // once lng is large, and the loops would never end
+    lng = lng % (2.0 * PI);
     while lng > PI {
         lng = lng - (2.0 * PI);
     }
-- 
2.43.0


From 0c658dcd510f574c501550aeba8772ee7564ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 8/8] fix: keep the longitude when sailing from or close to a
 pole

_geoAzDistanceRads divided by the cosines of both latitudes and clamped
the quotients: close to a pole the longitude lost its digits, and from a
pole it was arbitrary.
---
 src/lat_lng.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/lat_lng.rs b/src/lat_lng.rs
index eb9753e..ab451cd 100644
--- a/src/lat_lng.rs
+++ b/src/lat_lng.rs
@@ -197,22 +197,11 @@ pub fn _geoAzDistanceRads(p1: &LatLng, mut az: f64, distance: f64) -> LatLng {
             p2.lat = -FRAC_PI_2;
             p2.lng = 0.0;
         } else {
-            sinlng = (az).sin() * (distance).sin() / (p2.lat).cos();
-            coslng = ((distance).cos() - (p1.lat).sin() * (p2.lat).sin())
-                / (p1.lat).cos()
-                / (p2.lat).cos();
-            if sinlng > 1.0 {
-                sinlng = 1.0;
-            }
-            if sinlng < -1.0 {
-                sinlng = -1.0;
-            }
-            if coslng > 1.0 {
-                coslng = 1.0;
-            }
-            if coslng < -1.0 {
-                coslng = -1.0;
-            }
+            // both scaled by the cosine of the new latitude; dividing by the
+            // cosine of either latitude loses the longitude close to a pole
+            sinlng = (az).sin() * (distance).sin();
+            coslng = (p1.lat).cos() * (distance).cos()
+                - (p1.lat).sin() * (distance).sin() * (az).cos();
             p2.lng = constrainLng(p1.lng + (sinlng.atan2(coslng)));
         }
     }
-- 
2.43.0

