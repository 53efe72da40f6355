From 9cf62e509d62cdf4fe1693329ed768ca28f30125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 01/50] fix: refuse short or corrupt wave data rows instead of
 panicking

---
 src/data/wave_data_record.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..4aea48f 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -31,16 +31,23 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid wave record: not enough columns".into(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From a624ea9c5e30d4d4584b9bd7ae39e92723183f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 02/50] fix: read the average period and mean direction from
 their own columns of wave data rows

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 4aea48f..83c378a 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -84,12 +84,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From c2bc2f90ab3e97e1d1f9bf5a00c64672c26df603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 03/50] fix: recognise the AVERAGE steepness as it is published

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 00fae314feab650c74083f6497e8c0017ea41ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 04/50] fix: refuse spectral data rows with an invalid date
 instead of panicking

---
 src/data/spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..9b2acd8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
-- 
2.43.0


From c53a97a6428e60cc999c157b3925435a51b7219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 05/50] fix: refuse short grib index rows instead of panicking

---
 src/data/grib_index_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
-- 
2.43.0


From ac7d024f1d47c28691b8356194d3f34c28c78d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 06/50] fix: do not let a stray quote in a feed row swallow the
 rows after it

---
 src/data/forecast_cbulletin_wave_data_record.rs | 1 +
 src/data/grib_index_record.rs                   | 1 +
 src/data/latest_obs_data_record.rs              | 1 +
 src/data/meteorological_data_record.rs          | 1 +
 src/data/spectral_wave_data_record.rs           | 1 +
 src/data/wave_data_record.rs                    | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..1a79251 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -262,6 +262,7 @@ impl<'a> ForecastCBulletinWaveRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         ForecastCBulletinWaveRecordCollection { data, reader }
diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index 265ee43..b410890 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -65,6 +65,7 @@ impl<'a> GribIndexRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         GribIndexRecordCollection { reader }
diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..1722420 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -184,6 +184,7 @@ impl<'a> LatestObsDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         LatestObsDataRecordCollection { reader }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..bbfac38 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -268,6 +268,7 @@ impl<'a> MeteorologicalDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         MeteorologicalDataRecordCollection { reader }
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index 9b2acd8..fabc162 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -90,6 +90,7 @@ impl<'a> SpectralWaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         SpectralWaveDataRecordCollection { reader }
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 83c378a..fc5a928 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -158,6 +158,7 @@ impl<'a> WaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         WaveDataRecordCollection { reader }
-- 
2.43.0


From 018f4d7ba368fd8773e6da3fe608f50f530f58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 07/50] fix: refuse corrupt bulletin rows and headers instead
 of panicking

---
 .../forecast_cbulletin_wave_data_record.rs    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 1a79251..96b58b0 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -107,7 +107,8 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
 
                 let d = Utc
                     .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)?;
                 Ok(d)
             }
             None => Err(DataRecordParsingError::ParseFailure(
@@ -139,11 +140,20 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
+        // The timestep and total height, then three columns per component
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        let (day, hour) = match (timestep.get(0..2), timestep.get(2..)) {
+            (Some(day), Some(hour)) => (day, hour),
+            _ => return Err(DataRecordParsingError::InvalidData),
+        };
+        let day = day.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = hour.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
@@ -160,7 +170,8 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
 
         let date = Utc
             .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From 5dd891ab5ae8b855f06b3b8bda242718459f65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 08/50] fix: date bulletin rows past the end of December in
 January of the next year

---
 src/data/forecast_cbulletin_wave_data_record.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 96b58b0..162f9d8 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -162,14 +162,17 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        let (year, month) = if model_date.day() > day {
+            match model_date.month() {
+                12 => (model_date.year() + 1, 1),
+                month => (model_date.year(), month + 1),
+            }
         } else {
-            model_date.month()
+            (model_date.year(), model_date.month())
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
             .single()
             .ok_or(DataRecordParsingError::InvalidData)?;
 
-- 
2.43.0


From f5eaa9379839558deada576e9d9c6ed7d239f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 09/50] fix: report insufficient data for a bulletin row
 without swell components

---
 src/data/forecast_cbulletin_wave_data_record.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 162f9d8..ff6557c 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -224,7 +224,13 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self
+            .swell_components
+            .first()
+            .cloned()
+            .ok_or(crate::swell::SwellProviderError::InsufficientData(
+                "no swell components".into(),
+            ))?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From 0c8c69757e563ad7fb61b4e31ce8e648ec7cdcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 10/50] fix: keep intact forecast steps when the step before
 them is damaged

---
 .../forecast_spectral_wave_data_record.rs     | 74 ++++++++++++-------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..33b947d 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -1,6 +1,6 @@
 use std::f64;
 use std::f64::consts::PI;
-use std::iter::Skip;
+use std::iter::{Peekable, Skip};
 use std::str::{FromStr, Lines};
 
 use chrono::{DateTime, TimeZone, Utc};
@@ -229,7 +229,7 @@ impl SwellProvider for ForecastSpectralWaveDataRecord {
 }
 
 pub struct ForecastSpectralWaveRecordIterator<'a> {
-    lines: Skip<Lines<'a>>,
+    lines: Peekable<Skip<Lines<'a>>>,
     point_regex: Regex,
     metadata: ForecastSpectralWaveDataRecordMetadata,
     reference_date: Option<DateTime<Utc>>,
@@ -238,7 +238,7 @@ pub struct ForecastSpectralWaveRecordIterator<'a> {
 impl<'a> ForecastSpectralWaveRecordIterator<'a> {
     pub fn from_data(data: &'a str) -> Result<Self, DataRecordParsingError> {
         let metadata = ForecastSpectralWaveDataRecordMetadata::from_str(data)?;
-        let lines = data.lines().skip(metadata.line_count);
+        let lines = data.lines().skip(metadata.line_count).peekable();
 
         let point_regex = Regex::new(".{0,12}\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)\\s*([+-]?[0-9]*[.]?[0-9]+)");
         let point_regex = point_regex.map_err(|e| {
@@ -253,39 +253,51 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         })
     }
 
-    fn parse_next(&mut self) -> Result<ForecastSpectralWaveDataRecord, DataRecordParsingError> {
-        let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
-
-        // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
-        })?;
+    fn parse_date(line: &str) -> Option<DateTime<Utc>> {
+        let (day_part, time_part) = line.trim().split_once(' ')?;
+        let time_part = time_part.trim_start();
+        let digits = |s: &str, len: usize| s.len() == len && s.bytes().all(|b| b.is_ascii_digit());
+        if !digits(day_part, 8) || !digits(time_part, 6) {
+            return None;
+        }
 
-        let month = line[4..6].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
-        })?;
+        Utc.with_ymd_and_hms(
+            day_part[0..4].parse().ok()?,
+            day_part[4..6].parse().ok()?,
+            day_part[6..8].parse().ok()?,
+            time_part[0..2].parse().ok()?,
+            time_part[2..4].parse().ok()?,
+            0,
+        )
+        .single()
+    }
 
-        let day = line[6..8].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
-        })?;
+    /// The next line of the current step. The date line that begins another step is left in place,
+    /// so that a step with lines missing does not swallow the one after it.
+    fn next_step_line(&mut self) -> Result<&'a str, DataRecordParsingError> {
+        let line = *self.lines.peek().ok_or(DataRecordParsingError::EOF)?;
+        if Self::parse_date(line).is_some() {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Step ended before all of its data".into(),
+            ));
+        }
+        self.lines.next();
+        Ok(line)
+    }
 
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
-        })?;
+    fn parse_next(&mut self) -> Result<ForecastSpectralWaveDataRecord, DataRecordParsingError> {
+        let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
-            DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
+        // First line is the date
+        let date = Self::parse_date(line).ok_or_else(|| {
+            DataRecordParsingError::ParseFailure(format!("Failed to parse date: {}", line))
         })?;
 
-        let date = Utc
-            .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
-
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
         }
 
-        let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
+        let line = self.next_step_line()?;
 
         // Then the point data
         let extracted: Result<(f64, f64, f64, f64, f64, f64, f64), DataRecordParsingError> =
@@ -372,7 +384,7 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
             Vec::with_capacity(self.metadata.frequency.len() * self.metadata.direction.len());
 
         while raw_energy.len() < energy_count {
-            let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
+            let line = self.next_step_line()?;
 
             line.split_whitespace().map(f64::from_str).for_each(|v| {
                 if let Ok(v) = v {
@@ -381,6 +393,14 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
             });
         }
 
+        if raw_energy.len() != energy_count {
+            return Err(DataRecordParsingError::ParseFailure(format!(
+                "Expected {} energy values but found {}",
+                energy_count,
+                raw_energy.len()
+            )));
+        }
+
         //let mut energy = vec![0.0; raw_energy.len()];
         //transpose::transpose(&raw_energy, &mut energy, self.metadata.direction.len(), self.metadata.frequency.len());
 
-- 
2.43.0


From 735d2c36dcbb38dadae2ef1b7154e8e817d640d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 11/50] fix: track swell through empty, repeated and incomplete
 steps with unique ids

---
 src/tools/waves.rs | 78 +++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 28 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..b2c0502 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -271,10 +271,15 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // All of the partitions are candidates for tracking in the first time step, which keeps the
+    // ids it has, so the partition counter starts past the largest of them.
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .filter_map(|s| s.partition)
+        .max()
+        .map_or(0, |id| id + 1)
+        .max(inputs[0].1.len());
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
@@ -287,6 +292,14 @@ pub fn track_partitions(
         })
         .collect();
 
+    // Partitions of the first time step that have no id yet get their own
+    for (icp, p) in inputs[0].1.iter().enumerate() {
+        if p.partition.is_none() {
+            partition_map[0][icp].0 = partition_count;
+            partition_count += 1;
+        }
+    }
+
     for i in 1..partition_map.len() {
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
@@ -299,50 +312,59 @@ pub fn track_partitions(
             .iter()
             .enumerate()
             .map(|(icp, p)| {
-                let partition_dir = p.direction.get_value().degrees;
                 let partition_period = p.period.get_value();
 
                 prev.1
                     .iter()
                     .enumerate()
                     .map(|(ipp, prev_p)| {
-                        let prev_partition_dir = prev_p.direction.get_value().degrees;
+                        // A partition without a direction or period matches nothing
+                        let (Some(dir), Some(prev_dir)) = (
+                            p.direction.get_value_opt(),
+                            prev_p.direction.get_value_opt(),
+                        ) else {
+                            return (icp, ipp, 999.99);
+                        };
+
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((dir.degrees % 360 - prev_dir.degrees % 360 + 180).rem_euclid(360)
+                                - 180)
+                                .abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
+                        // No difference scores 0 even where none is expected
+                        let ratio = |delta: f64, scale: f64| match delta == 0.0 {
+                            true => 0.0,
+                            false => (delta / scale).abs(),
+                        };
+
                         let score = if dir_delta > max_dir_delta as i32 {
                             999.99
                         } else {
-                            (dir_delta as f64 / max_dir_delta).abs()
-                                + (period_delta / dfp_swell).abs()
-                        }
-                        .abs();
-                        (icp, ipp, score)
+                            ratio(dir_delta as f64, max_dir_delta) + ratio(period_delta, dfp_swell)
+                        };
+                        (icp, ipp, if score.is_nan() { 999.99 } else { score })
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
-            })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
+                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
+                    // Nothing to match in an empty time step
+                    .unwrap_or((icp, 0, 999.99))
             })
+            .sorted_by(|a, b| a.2.total_cmp(&b.2))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
-                let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
+        for (icp, ipp, score) in matches {
+            let matched = partition_map[i - 1].get(ipp).map(|(id, _)| *id);
+            match matched {
+                Some(id) if score <= 999.0 && !hit.contains(&id) => {
+                    //println!("Hit: {} score {}", id, score);
+                    partition_map[i][icp] = (id, score);
+                    hit.insert(id);
+                }
+                _ => {
                     partition_map[i][icp] = (partition_count, 0.0);
                     partition_count += 1;
-                } else {
-                    //println!("Hit: {} score {}", ipp, score);
-                    partition_map[i][icp] = (ipp, score);
-                    hit.insert(ipp);
                 }
             }
         }
-- 
2.43.0


From 9b43adcec041a56016d436f445e88019149a3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 12/50] fix: list probable false swell components in order and
 without panicking on a missing direction

---
 src/swell.rs           | 18 +++++++++---------
 src/units/direction.rs |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..4ef2bab 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -129,23 +129,23 @@ impl SwellSummary {
                 continue;
             }
 
-            let truth_direction = self.components[i_components[0]]
-                .direction
-                .value
-                .as_ref()
-                .unwrap();
+            let Some(truth_direction) = &self.components[i_components[0]].direction.value else {
+                continue;
+            };
 
             // Assuming sorted from max to min energy already
             for i in 1..i_components.len() {
                 let idx = i_components[i];
-                if truth_direction
-                    .is_opposite(self.components[idx].direction.value.as_ref().unwrap())
-                {
-                    indexes.push(idx);
+                if let Some(direction) = &self.components[idx].direction.value {
+                    if truth_direction.is_opposite(direction) {
+                        indexes.push(idx);
+                    }
                 }
             }
         }
 
+        // The grouping above has no order of its own
+        indexes.sort_unstable();
         indexes
     }
 
diff --git a/src/units/direction.rs b/src/units/direction.rs
index 2ca3e4c..9ef4e0f 100644
--- a/src/units/direction.rs
+++ b/src/units/direction.rs
@@ -74,7 +74,7 @@ impl Direction {
     }
 
     pub fn is_opposite(&self, other: &Direction) -> bool {
-        let diff = (self.degrees - other.degrees).abs();
+        let diff = (self.degrees % 360 - other.degrees % 360).abs();
         diff >= 170 && diff <= 190
     }
 }
-- 
2.43.0


From 4950371db51dbddb7e5e687422e74a8389960639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 13/50] fix: convert temperatures and wind speeds consistently
 between unit systems

---
 src/units/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..45444ab 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -166,11 +166,11 @@ impl Unit {
             },
             Unit::MilesPerHour => match target {
                 Unit::MetersPerSecond => value / 2.237,
-                Unit::Knots => value / 1.15,
+                Unit::Knots => value / 2.237 * 1.944,
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
@@ -179,12 +179,12 @@ impl Unit {
                 _ => value,
             },
             Unit::Knots => match target {
-                Unit::MetersPerSecond => value * 0.514,
-                Unit::MilesPerHour => value * 1.15,
+                Unit::MetersPerSecond => value / 1.944,
+                Unit::MilesPerHour => value / 1.944 * 2.237,
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 2575f0959ee45011b81a73b8463f173f9ffbd103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 14/50] fix: load tidal records that were serialized by this
 library

---
 src/data/tidal_data_record.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/tidal_data_record.rs b/src/data/tidal_data_record.rs
index d923728..bd08cbe 100644
--- a/src/data/tidal_data_record.rs
+++ b/src/data/tidal_data_record.rs
@@ -27,8 +27,13 @@ where
     D: Deserializer<'de>,
 {
     let s: String = Deserialize::deserialize(deserializer)?;
-    let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
-    Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))
+    match NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M") {
+        Ok(naive) => Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc)),
+        // Records are serialized with their full timestamp
+        Err(e) => DateTime::parse_from_rfc3339(&s)
+            .map(|date| date.to_utc())
+            .map_err(|_| de::Error::custom(e)),
+    }
 }
 
 fn tidal_value_f64<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
-- 
2.43.0


From a0b9bbf52cc2a6d0d577d8d199cf0374e85f98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 15/50] fix: read NWS wind speeds without a unit or with a
 range instead of panicking

---
 src/data/nws_weather_forecast_data_record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..6161d96 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -72,7 +72,7 @@ pub struct NwsWeatherForecastDataRecord {
 
 impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
     fn from(data: &NwsWeatherForecastPeriodData) -> Self {
-        let wind_speed_parts = data.wind_speed.split(" ").collect::<Vec<&str>>();
+        let mut wind_speed_parts = data.wind_speed.split_whitespace();
 
         Self {
             start_time: data.start_time,
@@ -94,9 +94,9 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
             wind_speed: DimensionalData::from_raw_data(
-                wind_speed_parts[0],
+                wind_speed_parts.next().unwrap_or_default(),
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(wind_speed_parts.last().unwrap_or_default()),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From 40e47c8c47d57be1889c06d5a47c0930ca67f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 16/50] fix: treat frequencies beyond a short spectral
 measurement as missing instead of panicking

---
 src/data/directional_spectral_wave_data_record.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/data/directional_spectral_wave_data_record.rs b/src/data/directional_spectral_wave_data_record.rs
index fe8963f..acba1c9 100644
--- a/src/data/directional_spectral_wave_data_record.rs
+++ b/src/data/directional_spectral_wave_data_record.rs
@@ -31,7 +31,15 @@ impl DirectionalSpectralWaveDataRecord {
     ) -> Self {
         let mut directional_spectra = vec![0.0; frequency.len() * direction.len()];
 
-        for (ik, _) in frequency.iter().enumerate() {
+        // Frequencies that a measurement does not reach are missing from it
+        let measured = energy_spectra
+            .len()
+            .min(mean_wave_direction.len())
+            .min(primary_wave_direction.len())
+            .min(first_polar_coefficient.len())
+            .min(second_polar_coefficient.len());
+
+        for (ik, _) in frequency.iter().enumerate().take(measured) {
             for (ith, angle) in direction.iter().enumerate() {
                 if f_eq(energy_spectra[ik], 999.9)
                     || f_eq(mean_wave_direction[ik], 999.0)
-- 
2.43.0


From 6790d6d80128c3d9cab9f37c74cd93b2d13b546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 17/50] fix: recognise temperatures published in C

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 45444ab..74aa65e 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -91,7 +91,7 @@ impl From<&str> for Unit {
             "mm" | "millimeters" | "millimeter" => Unit::Millimeters,
             "m" | "meters" | "meter" | "wmounit:m" => Unit::Meters,
             "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" => Unit::MetersPerSecond,
-            "°c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
+            "°c" | "c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
                 Unit::Celsius
             }
             "pa" | "pascals" | "pascal" => Unit::Pascal,
-- 
2.43.0


From 1357b0eb64797569932152a7dda3b61fc831df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 18/50] fix: assign watershed points whose closest neighbor is
 the first one

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..7ad75af 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From cb50a4aa80d56ebde1f3950769514b9f9c184681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 19/50] fix: report an error for spectra too small or damaged
 to extract swell from

---
 src/spectra.rs        | 9 +++++++++
 src/tools/analysis.rs | 2 +-
 src/tools/waves.rs    | 6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..0748261 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -371,6 +371,15 @@ impl Spectra {
         partitions: &(Vec<i32>, usize),
     ) -> Result<crate::swell::SwellSummary, SwellProviderError> {
         let (imo, partition_count) = partitions;
+
+        // Bandwidths need at least two bins on both axes
+        let bins = self.nk() * self.nth();
+        if self.nk() < 2 || self.nth() < 2 || self.energy.len() != bins || imo.len() != bins {
+            return Err(SwellProviderError::InsufficientData(
+                "spectra is too small or incomplete".into(),
+            ));
+        }
+
         let (summary, components) = pt_mean(
             *partition_count,
             &imo,
diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 7ad75af..9cdd16e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -222,7 +222,7 @@ pub fn watershed(
     blur: Option<f32>,
 ) -> Result<(Vec<i32>, usize), WatershedError> {
     let count = width * height;
-    if data.len() != count {
+    if count == 0 || data.len() != count {
         return Err(WatershedError::InvalidData);
     }
 
diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index b2c0502..27e6ab8 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -674,7 +674,11 @@ pub fn pt_mean(
     }
 
     // Sort components by energy
-    components.sort_by(|sl, sr| sr.energy.partial_cmp(&sl.energy).unwrap());
+    components.sort_by(|sl, sr| {
+        sr.energy
+            .partial_cmp(&sl.energy)
+            .unwrap_or(std::cmp::Ordering::Equal)
+    });
 
     // Calculate the total energy by simply summing the energy of all swell components
     let mut summary_energy = 0.0;
-- 
2.43.0


From e4ae3e63712cc35fb67857d032c6c515510d6aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 20/50] fix: integrate each frequency over its own bandwidth
 when extracting swell

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 27e6ab8..91bec19 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -443,7 +443,7 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
-- 
2.43.0


From 7e616209f35e17d802e9768036bbedc39280ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 21/50] fix: include the diagonal bottom left neighbor when
 partitioning spectra

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 9cdd16e..1c246b7 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From 65149efe3c48c8a493535235b25c227f16159d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 22/50] fix: refuse short or corrupt meteorological rows
 instead of panicking

---
 src/data/meteorological_data_record.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index bbfac38..85a3c16 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -42,16 +42,23 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid meteorological record: not enough columns".into(),
+            ));
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(MeteorologicalDataRecord {
             date,
-- 
2.43.0


From 75b6b1ab85a937cfee18ddabdf4a0003a325141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:36 +0000
Subject: [PATCH 23/50] fix: refuse short or corrupt latest observation rows
 instead of panicking

---
 src/data/latest_obs_data_record.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 1722420..2d075e8 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -50,19 +50,26 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::ParseFailure(
+                "Invalid latest observation record: not enough columns".into(),
+            ));
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
         let date = Utc
             .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
+                row[3].parse()?,
+                row[4].parse()?,
+                row[5].parse()?,
+                row[6].parse()?,
+                row[7].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(LatestObsDataRecord {
             station_id,
-- 
2.43.0


From 7e3255ecd8e80fed5c4643abd6c271ebea6c7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 24/50] fix: read whether a listed buoy station has
 meteorological data

---
 src/buoy_station.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..bc03146 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,12 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(
+        rename = "@met",
+        alias = "met",
+        deserialize_with = "bool_from_simple_str",
+        default
+    )]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From be8631406c875faf246507a211ab8132e4e5db28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 25/50] fix: count stations that only report tsunami data as
 active

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index bc03146..fddac6a 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -136,7 +136,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From 81213e0ead0d0ffc61a2e006d8cece6c66007e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 26/50] fix: match latest observations to stations whatever the
 case of their ids

---
 src/data/latest_obs_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 2d075e8..67dfefd 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -225,7 +225,7 @@ pub fn latest_obs_feature_collection<'a>(
 ) -> FeatureCollection {
     let latest_obs_map = latest_obs
         .iter()
-        .map(|lo| (lo.station_id.clone(), lo.clone()))
+        .map(|lo| (lo.station_id.to_uppercase(), lo.clone()))
         .collect::<HashMap<String, LatestObsDataRecord>>();
 
     let features = buoy_stations
@@ -233,7 +233,7 @@ pub fn latest_obs_feature_collection<'a>(
         .map(|b| {
             let mut station_feature: Feature = b.clone().into();
 
-            if let Some(latest_obs) = latest_obs_map.get(&b.station_id) {
+            if let Some(latest_obs) = latest_obs_map.get(&b.station_id.to_uppercase()) {
                 let observation_data_value = serde_json::to_value(&latest_obs).unwrap();
                 let mut observation_data = observation_data_value.as_object().unwrap().clone();
                 observation_data.remove("station_id");
-- 
2.43.0


From 96a65976c28b275f0a05cda8ae380247db303215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 27/50] fix: return an error for malformed dap constraints
 instead of panicking

---
 src/tools/dap.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..9d55f55 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -26,18 +26,17 @@ impl FromStr for DapConstraint {
         .to_string();
         let ranges = parts
             .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
-                    .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
+                let bounds = range
+                    .trim_end_matches(']')
+                    .split(':')
+                    .map(|bound| bound.parse::<usize>())
+                    .collect::<Result<Vec<usize>, _>>();
+                match bounds.as_deref() {
+                    Ok([start, step, end]) => Ok((*start, *step, *end)),
+                    _ => Err(format!("Invalid range for dap constraint: [{range}")),
+                }
             })
-            .collect::<Vec<(usize, usize, usize)>>();
+            .collect::<Result<Vec<(usize, usize, usize)>, String>>()?;
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From 941b6bfc030df8a33bffe3ebfe97be4c80c2e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 28/50] fix: do not make up wave data for locations without
 model values around them

---
 src/data/gfs_wave_grib_point_data_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index ec61a95..70088fc 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -58,6 +58,10 @@ impl GFSWaveGribPointDataRecord {
 
             match model.query_location_tolerance(location, &tolerance, m) {
                 Ok(value) => {
+                    if value.is_empty() {
+                        return;
+                    }
+
                     let sum: f64 = value.iter().sum();
                     let mean: f64 = sum / value.len() as f64;
                     data.insert(abbrev, mean);
-- 
2.43.0


From 58f6f6a120bf62e05f99c3233fea92824f8f5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 29/50] fix: average the directions around a location as
 directions

---
 src/data/gfs_wave_grib_point_data_record.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index 70088fc..d79fb6b 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -24,6 +24,15 @@ pub struct GFSWaveGribPointDataRecord {
     pub swell_components: Vec<Swell>,
 }
 
+/// The mean of directions in degrees, which are circular: each one counts by how far it is from the first
+fn mean_direction(degrees: &[f64]) -> f64 {
+    let offsets: f64 = degrees
+        .iter()
+        .map(|d| (d - degrees[0] + 180.0).rem_euclid(360.0) - 180.0)
+        .sum();
+    (degrees[0] + offsets / degrees.len() as f64).rem_euclid(360.0)
+}
+
 impl GFSWaveGribPointDataRecord {
     pub fn from_messages(
         model: &impl NOAAModel,
@@ -62,8 +71,15 @@ impl GFSWaveGribPointDataRecord {
                         return;
                     }
 
-                    let sum: f64 = value.iter().sum();
-                    let mean: f64 = sum / value.len() as f64;
+                    let is_direction = ["DIRPW", "WDIR", "WVDIR", "SWDIR"]
+                        .iter()
+                        .any(|d| abbrev.starts_with(d));
+
+                    let mean = if is_direction {
+                        mean_direction(&value)
+                    } else {
+                        value.iter().sum::<f64>() / value.len() as f64
+                    };
                     data.insert(abbrev, mean);
                 }
                 Err(err) => println!("{err}"),
-- 
2.43.0


From 15da01e092d76b38b4bc9555491d5e2a6b64cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 30/50] fix: find the grid cells on the other side of the
 antimeridian

---
 src/model/noaa_model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..4c3ef3d 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -161,8 +161,10 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
+        let lng_distance = |lng: f64| {
+            let distance = (lng - location.longitude).rem_euclid(360.0);
+            distance.min(360.0 - distance)
+        };
 
         let data = message.data()?;
 
@@ -178,8 +180,7 @@ pub trait NOAAModel {
 
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && lng_distance(lng[col]) <= *tolerance
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0


From bea43dbb398e008fb2c985110f76e78c23c963d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 31/50] fix: look up the grid cell closest to the location

---
 src/model/noaa_model.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 4c3ef3d..4dcf991 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -207,15 +207,16 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
+        let lng_step = (end.1 - start.1).rem_euclid(360.0) / (lng_size - 1) as f64;
+        let lat_step = (end.0 - start.0) / (lat_size - 1) as f64;
 
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
+        let lng_index = ((location.longitude - start.1).rem_euclid(360.0) / lng_step).round();
         let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
             .abs()
-            .round() as usize;
+            .round();
+
+        let lng_index = (lng_index as usize).min(lng_size - 1);
+        let lat_index = (lat_index as usize).min(lat_size - 1);
 
         let data = message.data()?;
         let latlng_index = lng_index + lng_size * lat_index;
-- 
2.43.0


From 6a10f362f5f83fa283173f6023f559169c2e3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 32/50] fix: interpolate between the grid cells around the
 location

---
 src/model/noaa_model.rs | 58 ++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 4dcf991..ef84f5b 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -4,7 +4,7 @@ use gribberish::{error::GribberishError, message::Message};
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    location::{normalize_latitude, normalize_longitude, Location},
+    location::{normalize_latitude, Location},
     tools::{
         analysis::{bilerp, lerp},
         contour::compute_latlng_gridded_contours,
@@ -243,27 +243,17 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
+        let lng_step = (end.1 - start.1).rem_euclid(360.0) / (lng_size - 1) as f64;
+        let lat_step = (end.0 - start.0) / (lat_size - 1) as f64;
 
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
+        let x = (location.longitude - start.1).rem_euclid(360.0) / lng_step;
+        let y = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step).abs();
+
+        let lng_lower_index = (x.floor() as usize).min(lng_size - 1);
+        let lng_upper_index = (x.ceil() as usize).min(lng_size - 1);
+        let lat_lower_index = (y.floor() as usize).min(lat_size - 1);
+        let lat_upper_index = (y.ceil() as usize).min(lat_size - 1);
 
-        let (lat, lng) = projector.lat_lng();
         let data = message.data()?;
 
         let a = data[lat_lower_index * lng_size + lng_lower_index];
@@ -271,30 +261,20 @@ pub trait NOAAModel {
         let c = data[lat_upper_index * lng_size + lng_lower_index];
         let d = data[lat_upper_index * lng_size + lng_upper_index];
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        // The position of the location and its surrounding cells, in cells from the start of the grid
+        let x0 = lng_lower_index as f64;
+        let x1 = lng_upper_index as f64;
+        let y0 = lat_lower_index as f64;
+        let y1 = lat_upper_index as f64;
 
         let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
             a
         } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+            lerp(&a, &b, &x, &x0, &x1)
+        } else if lng_lower_index == lng_upper_index {
+            lerp(&a, &c, &y, &y0, &y1)
         } else {
-            bilerp(
-                &a,
-                &b,
-                &c,
-                &d,
-                &location.longitude,
-                &x0,
-                &x1,
-                &location.latitude,
-                &y0,
-                &y1,
-            )
+            bilerp(&a, &b, &c, &d, &x, &x0, &x1, &y, &y0, &y1)
         };
 
         Ok(value)
-- 
2.43.0


From 5bc47a44ea1ff18598222d8b9ab8fc3b45ca3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 33/50] fix: read weather forecasts with null dewpoints,
 humidities or precipitation chances

---
 src/data/nws_weather_forecast_data_record.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index 6161d96..64cb142 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -31,7 +31,9 @@ impl NwsGridPointData {
 #[serde(rename_all = "camelCase")]
 struct WMODataField {
     unit_code: String,
-    value: f64,
+    // Null when the office has no value for the period
+    #[serde(deserialize_with = "Option::deserialize")]
+    value: Option<f64>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -84,12 +86,12 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.temperature_unit.as_str()),
             },
             dewpoint: DimensionalData {
-                value: Some(data.dewpoint.value),
+                value: data.dewpoint.value,
                 variable_name: "dewpoint".to_string(),
                 unit: Unit::from(data.dewpoint.unit_code.as_str()),
             },
             humidity: DimensionalData {
-                value: Some(data.relative_humidity.value),
+                value: data.relative_humidity.value,
                 variable_name: "humidity".to_string(),
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
-- 
2.43.0


From deab83edf74c27f5ee93c09c3dd8b700eb7268ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:46 +0000
Subject: [PATCH 34/50] fix: regrid the lowest source frequency by the
 frequency itself

The frequency was compared after a round trip through its logarithm, which
can come out a rounding below the lowest source frequency, and its energy
was then dropped.
---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 0748261..7ad3ed4 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -610,8 +610,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From 84b3e1034428fe99c5741061093586cc72b0ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 35/50] fix: directional bandwidths around the circle

---
 src/spectra.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index 7ad3ed4..571b39d 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::TAU;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -139,7 +141,14 @@ impl Spectra {
 
     /// Vector of directional bandwidths
     pub fn dth(&self) -> Vec<f64> {
+        // Around the circle, whichever direction is listed first and whichever way they run
         diff(&self.direction)
+            .iter()
+            .map(|d| {
+                let d = d.abs() % TAU;
+                d.min(TAU - d)
+            })
+            .collect()
     }
 
     /// Interpolated frequency for a given index
-- 
2.43.0


From 82e172f9d193fb9cb6a5c035bb337575047a9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 36/50] fix: chart spectra with missing values

---
 src/spectra.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 571b39d..56a8f93 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -343,17 +343,10 @@ impl Spectra {
 
     /// The value range of the energy data in the form of (min, max)
     pub fn energy_range(&self) -> (f64, f64) {
-        let min = self
-            .energy
-            .iter()
-            .min_by(|a, b| a.partial_cmp(b).unwrap())
-            .unwrap();
-        let max = self
-            .energy
-            .iter()
-            .max_by(|a, b| a.partial_cmp(b).unwrap())
-            .unwrap();
-        (*min, *max)
+        // Missing values have no place in the range
+        let min = self.energy.iter().copied().fold(f64::INFINITY, f64::min);
+        let max = self.energy.iter().copied().fold(f64::NEG_INFINITY, f64::max);
+        (min, max)
     }
 
     /// Partition the energy data into discrete swell components
@@ -432,12 +425,9 @@ impl Spectra {
         let periods = self.period();
 
         let origin = (size / 2, size / 2);
-        let max_period = periods
-            .iter()
-            .max_by(|a, b| a.partial_cmp(b).unwrap())
-            .unwrap();
+        let max_period = periods.iter().copied().fold(f64::NEG_INFINITY, f64::max);
         let exp_scale = exp_scale.unwrap_or(1.0);
-        let period_threshold = period_threshold.unwrap_or(*max_period);
+        let period_threshold = period_threshold.unwrap_or(max_period);
         let period_scale_threshold = period_threshold.powf(exp_scale);
 
         // Build the kdtree of the cartesian coordinates for all of the points that we have
-- 
2.43.0


From fc79ffd9d27781515dca54dd837ca3b61193b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 37/50] fix: differences of short vectors

---
 src/tools/vector.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tools/vector.rs b/src/tools/vector.rs
index 201202c..3ca96f1 100644
--- a/src/tools/vector.rs
+++ b/src/tools/vector.rs
@@ -17,11 +17,9 @@ pub fn diff<T>(data: &[T]) -> Vec<T>
 where
     T: std::ops::Sub<Output = T> + Copy,
 {
-    let last = data.len() - 1;
-
-    (0..last + 1)
+    (0..data.len())
         .map(|i| match i {
-            0 => data[1] - data[0],
+            0 => data[1.min(data.len() - 1)] - data[0],
             _ => data[i] - data[i - 1],
         })
         .collect()
@@ -29,11 +27,9 @@ where
 
 /// Returns the difference between the arrays n and n+1 items in a new vector with absolute value applied
 pub fn diff_abs(data: &[f64]) -> Vec<f64> {
-    let last = data.len() - 1;
-
-    (0..last + 1)
+    (0..data.len())
         .map(|i| match i {
-            0 => (data[1] - data[0]).abs(),
+            0 => (data[1.min(data.len() - 1)] - data[0]).abs(),
             _ => (data[i] - data[i - 1]).abs(),
         })
         .collect()
-- 
2.43.0


From 818429e20ed4a1fb805dded7f5bbe151037f1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 38/50] fix: refuse to contour nothing

---
 src/tools/contour.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 04cdb81..c09e3b4 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -20,6 +20,11 @@ pub fn compute_contours<C: Fn(&Vec<f64>) -> Vec<f64>, F: Fn(&usize, &f64) -> Str
     coordinate_transform: Option<C>,
     label_format: Option<F>,
 ) -> Result<Vec<Feature>, ContourError> {
+    // There is nothing to contour without any values or levels
+    if data.is_empty() || thresholds.is_empty() {
+        return Err(ContourError::ContourFailure);
+    }
+
     let contour_builder = ContourBuilder::new(width as u32, height as u32, true);
 
     let threshold_range = thresholds.last().unwrap() - thresholds.first().unwrap();
-- 
2.43.0


From 9c6edf37c407ad18dc59d06ca2fbd7a295712372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 39/50] fix: place spectral contours at the bins they follow

---
 src/spectra.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 56a8f93..9b1e81d 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -154,7 +154,7 @@ impl Spectra {
     /// Interpolated frequency for a given index
     pub fn ik(&self, f_index: f64) -> f64 {
         let i_lower = f_index.floor();
-        let i_upper = f_index.ceil();
+        let i_upper = i_lower + 1.0;
 
         if i_upper >= self.nk() as f64 {
             return self.frequency[self.frequency.len() - 1];
@@ -173,7 +173,7 @@ impl Spectra {
     /// Used by the contour generator that does smoothing on its own
     pub fn ith(&self, d_index: f64) -> f64 {
         let i_lower = d_index.floor();
-        let i_upper = d_index.ceil();
+        let i_upper = i_lower + 1.0;
 
         if i_upper >= self.nth() as f64 {
             return self.direction[self.direction.len() - 1];
@@ -185,6 +185,9 @@ impl Spectra {
 
         let v_lower = self.direction[i_lower as usize];
         let v_upper = self.direction[i_upper as usize];
+
+        // Between neighbours on both sides of north the short way around
+        let v_upper = v_upper - ((v_upper - v_lower) / TAU).round() * TAU;
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
 
@@ -522,10 +525,11 @@ impl Spectra {
             self.nth(),
             &t,
             Some(|point: &Vec<f64>| {
-                let x = 1.0 / self.ik(point[0]);
+                // The contours have the value of a bin in the middle of its cell
+                let x = 1.0 / self.ik(point[0] - 0.5);
                 let y = self
                     .dir_convention
-                    .normalize(self.ith(point[1]).to_degrees());
+                    .normalize(self.ith(point[1] - 0.5).rem_euclid(TAU).to_degrees());
                 vec![x, y]
             }),
             None::<Box<dyn Fn(&usize, &f64) -> String>>,
-- 
2.43.0


From d3b56de4f12ebd5561c4188430774d01798ebff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:24 +0000
Subject: [PATCH 40/50] fix: interpolate the energy of a spectrum between the
 bins around a value

---
 src/spectra.rs | 51 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 9b1e81d..b0a73d5 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -46,6 +46,11 @@ pub struct Spectra {
     pub dir_convention: DirectionConvention,
 }
 
+/// The same angle in radians between a half turn to the left and a half turn to the right
+fn signed_angle(angle: f64) -> f64 {
+    angle - (angle / TAU).round() * TAU
+}
+
 impl Spectra {
     pub fn new(
         frequency: Vec<f64>,
@@ -187,35 +192,39 @@ impl Spectra {
         let v_upper = self.direction[i_upper as usize];
 
         // Between neighbours on both sides of north the short way around
-        let v_upper = v_upper - ((v_upper - v_lower) / TAU).round() * TAU;
+        let v_upper = v_lower + signed_angle(v_upper - v_lower);
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
+        let last = self.frequency.len() - 1;
 
-        if lower == self.frequency.len() - 1 {
-            (lower, lower)
-        } else {
-            (lower, lower + 1)
+        // Past either end there is only the end itself
+        match self.frequency.iter().rposition(|f| f.le(&freq)) {
+            Some(lower) if lower < last => (lower, lower + 1),
+            Some(_) => (last, last),
+            None => (0, 0),
         }
     }
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
-
-        if lower == self.direction.len() - 1 {
-            // Direction wraps around cuz its a circle
-            (lower, 0)
-        } else {
-            (lower, lower + 1)
-        }
+        // The neighbours that the direction lies between, the short way around
+        // Direction wraps around cuz its a circle
+        let nth = self.nth();
+        (0..nth)
+            .map(|i| (i, (i + 1) % nth))
+            .min_by(|a, b| {
+                // How far out of the way the direction is for each pair
+                let [a, b] = [a, b].map(|(lower, upper)| {
+                    let (lower, upper) = (self.direction[*lower], self.direction[*upper]);
+                    signed_angle(dir - lower).abs() + signed_angle(upper - dir).abs()
+                        - signed_angle(upper - lower).abs()
+                });
+                a.total_cmp(&b)
+            })
+            .unwrap_or((0, 0))
     }
 
     pub fn energy_indices(&self) -> Vec<(usize, usize)> {
@@ -251,7 +260,11 @@ impl Spectra {
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
-        bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
+        let x = if f1 == f2 { 0.0 } else { (freq.max(f1).min(f2) - f1) / (f2 - f1) };
+        let gap = signed_angle(d2 - d1);
+        let y = if gap == 0.0 { 0.0 } else { signed_angle(dir - d1) / gap };
+
+        bilerp(&a, &b, &c, &d, &x, &0.0, &1.0, &y, &0.0, &1.0)
     }
 
     /// One dimensional representation of the energy across the given axis
-- 
2.43.0


From 51495210654c00cb01a2e04e26adcddd222a808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 41/50] fix: read units back from the labels and names they are
 shown with

---
 src/units/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 74aa65e..6cedf85 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -90,23 +90,25 @@ impl From<&str> for Unit {
         match value.trim().to_lowercase().as_str() {
             "mm" | "millimeters" | "millimeter" => Unit::Millimeters,
             "m" | "meters" | "meter" | "wmounit:m" => Unit::Meters,
-            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" => Unit::MetersPerSecond,
-            "°c" | "c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "wmounit:degc" => {
-                Unit::Celsius
+            "m/s" | "mps" | "ms-1" | "meterspersecond" | "meterpersecond" | "meters per second" => {
+                Unit::MetersPerSecond
             }
+            "°c" | "c" | "degcelsius" | "degreecelsius" | "degreescelsius" | "degrees celsius"
+            | "wmounit:degc" => Unit::Celsius,
             "pa" | "pascals" | "pascal" => Unit::Pascal,
-            "hpa" | "hectapascals" | "hectapascal" => Unit::HectaPascal,
+            "hpa" | "hectapascals" | "hectapascal" | "hecta pascal" => Unit::HectaPascal,
             "in" | "inches" | "inch" => Unit::Inches,
             "ft" | "feet" | "foot" => Unit::Feet,
-            "mph" | "m/h" | "mh-1" | "milesperhour" => Unit::MilesPerHour,
-            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
-                Unit::Fahrenheit
-            }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "mph" | "m/h" | "mh-1" | "milesperhour" | "miles per hour" => Unit::MilesPerHour,
+            "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit"
+            | "degrees fahrenheit" => Unit::Fahrenheit,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
-            "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" | "meters squared per hertz" => {
+                Unit::MetersSquaredPerHertz
+            }
+            "nmi" | "nauticalmiles" | "nauticalmile" | "nautical miles" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
             "%" | "percent" | "percentage" | "wmounit:percent" => Unit::Percent,
-- 
2.43.0


From 423acc2a4b9325502afa8cd05ed8256ee4a539f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 42/50] fix: compute the energy of bulletin components from
 heights in metres

---
 src/data/forecast_cbulletin_wave_data_record.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index ff6557c..01218cf 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -198,7 +198,11 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                // The energy is that of metric heights
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From 55f33a280755a1868964fcd6833ed00a7bbba62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 43/50] fix: no sun events where the sun stays up or down all
 day

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..108dbf5 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // Where the sun stays up or down all day there is neither
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From 9dd6cde11a70977783c457a165f2e249fbe40a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 44/50] fix: measure distances along the great circle

---
 src/location.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..6efc6f9 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
-        let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
-        let dest_lon = other.absolute_longitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
+        let source_lon = self.relative_longitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
+        let dest_lon = other.relative_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powi(2)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powi(2);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From 86a826458b94d59812a343decc0a610f8f49aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 45/50] fix: boxes across the prime meridian and around the
 whole circle

---
 src/location.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6efc6f9..96b4098 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,17 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        let west = absolute_longitude(bbox.0);
+        let east = absolute_longitude(bbox.2);
+        let longitude = absolute_longitude(self.longitude);
+        let within_lng = if bbox.2 - bbox.0 >= 360.0 {
+            true
+        } else if west <= east {
+            west <= longitude && longitude <= east
+        } else {
+            // Across the prime meridian
+            west <= longitude || longitude <= east
+        };
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 1ef892f9ffbc81a545cc7fac169b0090351bd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 46/50] fix: divide by gravity in the dispersion relation

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 91bec19..8023eb1 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From c40ef6d7e82e3b95890970f91a2fe5252d9b026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 47/50] fix: measure incident angles the short way around

---
 src/tools/waves.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 8023eb1..30f3473 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -130,8 +130,10 @@ pub fn estimate_breaking_wave_height(
 ) -> Result<f64, Error> {
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
+    // The swell may come from either side of where the beach faces, across north as well
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
+    let incident_angle = incident_angle.min(360.0 - incident_angle) as i32;
 
     if incident_angle > 90 {
         return Err(Error::OutOfRange);
-- 
2.43.0


From 225c72159fe85b9f771b963ec158c633eb5e7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 48/50] fix: refuse to estimate breaking heights of incomplete
 swells

---
 src/tools/waves.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 30f3473..a5469f1 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -128,11 +128,16 @@ pub fn estimate_breaking_wave_height(
     beach_slope: f64,
     water_depth: f64,
 ) -> Result<f64, Error> {
-    let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
-    let period = swell.period.value.as_ref().unwrap();
+    let (Some(deep_water_wave_height), Some(period), Some(direction)) = (
+        swell.wave_height.value.as_ref(),
+        swell.period.value.as_ref(),
+        swell.direction.value.as_ref(),
+    ) else {
+        return Err(Error::OutOfRange);
+    };
     // The swell may come from either side of where the beach faces, across north as well
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
+        (direction.degrees as f64 - beach_angle).rem_euclid(360.0);
     let incident_angle = incident_angle.min(360.0 - incident_angle) as i32;
 
     if incident_angle > 90 {
-- 
2.43.0


From 8057eff2a773f8295f74d1644b8265429f6e7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 49/50] fix: place gridded contours at the grid points they
 follow

---
 src/tools/contour.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index c09e3b4..89fa194 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -94,11 +94,12 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
     threshold_count: Option<usize>,
     label_format: Option<F>,
 ) -> Result<Vec<Feature>, ContourError> {
-    let lng_step = (lng_end - lng_start) / lng_count as f64;
+    // The start and end are the first and last grid points
+    let lng_step = (lng_end - lng_start) / (lng_count.max(2) - 1) as f64;
+    let lat_step = (lat_end - lat_start) / (lat_count.max(2) - 1) as f64;
     let diff = normalize_longitude(lng_end) - normalize_longitude(lng_start);
 
     let mut data_count = lat_count * lng_count;
-    let mut lng_end = lng_end;
     let mut lng_count = lng_count;
 
     let mut data = if diff.abs() - lng_step.abs() < 0.001 {
@@ -115,7 +116,6 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
                 }
             })
             .collect();
-        lng_end = (lng_end + lng_step).ceil();
         lng_count += 1;
         data_count = lat_count * lng_count;
         data
@@ -137,8 +137,9 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
         lat_count,
         &thresholds,
         Some(|point: &Vec<f64>| {
-            let x = lng_start + (lng_end - lng_start) * (point[0] / (lng_count as f64));
-            let y = lat_start + (lat_end - lat_start) * (point[1] / (lat_count as f64));
+            // The contours have the value of a grid point in the middle of its cell
+            let x = lng_start + lng_step * (point[0] - 0.5);
+            let y = lat_start + lat_step * (point[1] - 0.5);
             vec![x, y]
         }),
         label_format,
-- 
2.43.0


From aeec575e0b6215a2fc41ec19a2419c37a826b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 50/50] fix: close the seam of every grid around the world

---
 src/tools/contour.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 89fa194..1826fc6 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -3,8 +3,6 @@ use geojson::{Feature, Value};
 use itertools::Either;
 use serde::{Deserialize, Serialize};
 
-use crate::location::normalize_longitude;
-
 use super::{linspace::linspace, vector::min_max_fill};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -97,12 +95,12 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
     // The start and end are the first and last grid points
     let lng_step = (lng_end - lng_start) / (lng_count.max(2) - 1) as f64;
     let lat_step = (lat_end - lat_start) / (lat_count.max(2) - 1) as f64;
-    let diff = normalize_longitude(lng_end) - normalize_longitude(lng_start);
+    let span = (lng_end - lng_start + lng_step).abs();
 
     let mut data_count = lat_count * lng_count;
     let mut lng_count = lng_count;
 
-    let mut data = if diff.abs() - lng_step.abs() < 0.001 {
+    let mut data = if (span - 360.0).abs() < 0.001 {
         let data = data
             .iter()
             .enumerate()
-- 
2.43.0

