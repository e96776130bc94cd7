From 49a81b1fd560d507406debc50cfe266bfdd4bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 1/8] fix: count dynamic metrics in MetricsIter::size_hint

The hint added the static remainder to itself, so the lower bound could
exceed (and the upper bound fall short of) the number of entries left.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 06e1459..46c5922 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -88,7 +88,7 @@ impl<'a> Iterator for MetricsIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (slo, shi) = self.sm.size_hint();
-        let (dlo, dhi) = self.sm.size_hint();
+        let (dlo, dhi) = self.dm.size_hint();
 
         match (shi, dhi) {
             (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
-- 
2.43.0


From 13c8d5780e09750b2de4759556655f0c692b1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 2/8] fix: continue into the static metrics in
 MetricsIter::nth_back

Once the dynamic metrics were used up nth_back kept asking the exhausted
dynamic iterator and never returned a static metric.
---
 metriken-core/src/metrics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metriken-core/src/metrics.rs b/metriken-core/src/metrics.rs
index 46c5922..ab6f3a3 100644
--- a/metriken-core/src/metrics.rs
+++ b/metriken-core/src/metrics.rs
@@ -125,7 +125,7 @@ impl<'a> DoubleEndedIterator for MetricsIter<'a> {
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
         let len = self.dm.len();
-        self.dm.nth_back(n).or_else(|| self.dm.nth_back(n - len))
+        self.dm.nth_back(n).or_else(|| self.sm.nth_back(n - len))
     }
 
     fn rfold<B, F>(self, init: B, mut f: F) -> B
-- 
2.43.0


From 16f5be0232992a6f48c4947452e73b731b9979e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 3/8] fix: use the formatter given to MetricBuilder::formatter

The builder stores the formatter in the provider map, which can only provide
it by reference, while MetricEntry::formatted only asked for it by value. The
custom formatter of a dynamic metric was silently ignored.
---
 metriken-core/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metriken-core/src/lib.rs b/metriken-core/src/lib.rs
index a648eae..43f121b 100644
--- a/metriken-core/src/lib.rs
+++ b/metriken-core/src/lib.rs
@@ -129,6 +129,11 @@ impl MetricEntry {
         let formatter = self
             .request_value::<crate::wrapper::FormattingFn>()
             .map(|func| func.0)
+            // Dynamic metrics provide the formatter by reference.
+            .or_else(|| {
+                self.request_ref::<crate::wrapper::FormattingFn>()
+                    .map(|func| func.0)
+            })
             .unwrap_or(crate::default_formatter);
 
         formatter(self, format)
-- 
2.43.0


From 9c17a6d6027e15e0a457bc498060f2f9ced415cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 4/8] fix: make MetricEntry::is recognize dynamic metrics

The entry of a dynamic metric points at the ProviderMetric around it. With the
default representation the metric is not at offset 0, so its address never
compared equal to the one in the entry.
---
 metriken-core/src/dynmetrics.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metriken-core/src/dynmetrics.rs b/metriken-core/src/dynmetrics.rs
index 008d831..bc3e188 100644
--- a/metriken-core/src/dynmetrics.rs
+++ b/metriken-core/src/dynmetrics.rs
@@ -157,6 +157,10 @@ pub(crate) fn unregister(metric: *const dyn Metric) {
 }
 
 /// A metric combined with a set of dynamic providers.
+///
+/// This is `repr(C)` so that `metric` is at offset 0 and so has the same
+/// address as the `ProviderMetric` itself. [`MetricEntry::is`] depends on this.
+#[repr(C)]
 struct ProviderMetric<M> {
     metric: M,
     provider: ProviderMap,
-- 
2.43.0


From 49c39f35ccf9c0ca1ae046d3614ffff82f800a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 5/8] fix: reject 2^max_value_power in
 AtomicHistogram::increment

The bound check in the histogram crate is off by one, so recording exactly
2^max_value_power indexed past the last bucket and panicked instead of
returning Error::OutOfRange.
---
 metriken/src/histogram.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metriken/src/histogram.rs b/metriken/src/histogram.rs
index 24bfd9e..834fa66 100644
--- a/metriken/src/histogram.rs
+++ b/metriken/src/histogram.rs
@@ -41,6 +41,12 @@ impl AtomicHistogram {
 
     /// Increments the bucket for a corresponding value.
     pub fn increment(&self, value: u64) -> Result<(), Error> {
+        // The underlying histogram panics for 2^max_value_power exactly, which it
+        // takes to be in range.
+        if u128::from(value) >= 1u128 << self.config.max_value_power() {
+            return Err(Error::OutOfRange);
+        }
+
         self.get_or_init().increment(value)
     }
 
-- 
2.43.0


From 8f8fddbecef976593809a3f83d7c1d62a813ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 6/8] fix: deserialize V2 snapshots with named fields as V2

The enum is untagged and V1 was tried first. A V2 snapshot in JSON (or any
other format with field names) matches V1 as well, so it came back as a V1
snapshot without its duration.
---
 metriken-exposition/src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metriken-exposition/src/snapshot.rs b/metriken-exposition/src/snapshot.rs
index 84b3fd6..8c95a5b 100644
--- a/metriken-exposition/src/snapshot.rs
+++ b/metriken-exposition/src/snapshot.rs
@@ -63,8 +63,10 @@ pub struct SnapshotV2 {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[cfg_attr(feature = "serde", serde(untagged))]
 pub enum Snapshot {
-    V1(SnapshotV1),
+    // The first variant that matches is used when deserializing, and in formats
+    // with named fields any V2 snapshot also matches V1.
     V2(SnapshotV2),
+    V1(SnapshotV1),
 }
 
 #[cfg(feature = "parquet")]
-- 
2.43.0


From 7dcdea1bf1657dca0c18f7c33351e02020e7cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 7/8] fix: escape label values in the Prometheus format

A double quote, backslash or line feed in a metadata value was written out
verbatim, which is not valid in the Prometheus exposition format.
---
 metriken-core/src/formatter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metriken-core/src/formatter.rs b/metriken-core/src/formatter.rs
index c7b07e6..71dc4bb 100644
--- a/metriken-core/src/formatter.rs
+++ b/metriken-core/src/formatter.rs
@@ -29,7 +29,7 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
             let metadata: Vec<String> = metric
                 .metadata()
                 .iter()
-                .map(|(key, value)| format!("{key}=\"{value}\""))
+                .map(|(key, value)| format!("{key}=\"{}\"", escape_label_value(value)))
                 .collect();
             let metadata = metadata.join(", ");
 
@@ -42,3 +42,12 @@ pub fn default_formatter(metric: &MetricEntry, format: Format) -> String {
         _ => metric.name().to_string(),
     }
 }
+
+/// Escape backslashes, double quotes, and line feeds as required for label
+/// values in the Prometheus exposition format.
+fn escape_label_value(value: &str) -> String {
+    value
+        .replace('\\', "\\\\")
+        .replace('"', "\\\"")
+        .replace('\n', "\\n")
+}
-- 
2.43.0


From 48e8000b15f08b7a1cb6e3f312379ff899a276bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 8/8] fix: return I/O errors from MsgpackToParquet instead of
 panicking

---
 metriken-exposition/src/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metriken-exposition/src/convert.rs b/metriken-exposition/src/convert.rs
index 967eacb..69b415d 100644
--- a/metriken-exposition/src/convert.rs
+++ b/metriken-exposition/src/convert.rs
@@ -61,7 +61,7 @@ impl MsgpackToParquet {
         let mut schema = ParquetSchema::new();
 
         // First pass to build the schema
-        while !reader.fill_buf().unwrap().is_empty() {
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             schema.push(s);
@@ -69,8 +69,8 @@ impl MsgpackToParquet {
         let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
 
         // Rewind file pointer and second pass for the actual metrics
-        reader.rewind().unwrap();
-        while !reader.fill_buf().unwrap().is_empty() {
+        reader.rewind()?;
+        while !reader.fill_buf()?.is_empty() {
             let s: Snapshot = rmp_serde::from_read(&mut reader)
                 .map_err(|x| ParquetError::External(Box::new(x)))?;
             writer.push(s)?;
-- 
2.43.0

